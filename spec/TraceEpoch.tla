----------------------------- MODULE TraceEpoch -----------------------------
(* Recorded lives of data generators and of whole training scripts.  A life  *)
(* is a sequence of events, replayed on the state machine of EpochMC with    *)
(* the shuffled order as hidden state: "at" collects what was delivered.     *)
EXTENDS Epoch, TraceBase
VARIABLE l

(* the monitor of one life: state [at, index, bad]                           *)
Cat(at, k, v) == [ j \in DOMAIN at \cup { k } |-> IF j = k THEN v ELSE at[j] ]
BatchBad(r, st, e) ==
  (IF e.err # "" THEN { "raised" } ELSE {})
  \cup (IF e.err = "" /\ Len(e.ids) # r.b THEN { "full_batch" } ELSE {})
  \cup (IF e.err = "" /\ e.labels # [ i \in 1..Len(e.ids) |->
            IF e.ids[i] \in 1..r.n THEN r.labels[e.ids[i]] ELSE -1 ]
        THEN { "labels_and_points_belong_together" } ELSE {})
  \cup (IF e.err = "" /\ e.shape # << r.b, r.samples, 3 >> THEN { "number_of_points" } ELSE {})
  \cup (IF e.err = "" /\ ~(e.fshape = << r.b, r.samples, 1 >> /\ e.ones) THEN { "features" } ELSE {})
  \cup (IF e.err = "" /\ ~(\A i \in 1..Len(e.scales) : \A d \in 1..3 :
             IF r.augment THEN e.scales[i][d] \in 8990..11010
             ELSE e.scales[i][d] = 10000) THEN { "scaling" } ELSE {})
  \cup (IF e.err = "" /\ e.k \in DOMAIN st.at /\ st.at[e.k] # e.ids
        THEN { "index_keeps_its_models" } ELSE {})
Step(r, st, e) ==
  CASE e.ev = "call" ->
         LET e2 == [ e EXCEPT !.k = st.index ] IN
         [ at |-> Cat(st.at, st.index, e.ids), index |-> st.index + 1,
           bad |-> st.bad \cup BatchBad(r, st, e2)
              \cup (IF EpochOk(Cat(st.at, st.index, e.ids), r.n, r.b) THEN {} ELSE { "every_model_once" }) ]
    [] e.ev = "get" ->
         [ at |-> Cat(st.at, e.k, e.ids), index |-> st.index,
           bad |-> st.bad \cup BatchBad(r, st, e)
              \cup (IF EpochOk(Cat(st.at, e.k, e.ids), r.n, r.b) THEN {} ELSE { "every_model_once" }) ]
    [] e.ev = "iterated" ->
         [ st EXCEPT !.bad = @ \cup (IF DOMAIN st.at = 0..(Batches(r.n, r.b) - 1) THEN {} ELSE { "complete_epoch" }) ]
    [] e.ev = "end" -> [ at |-> << >>, index |-> 0, bad |-> st.bad ]
Life(r) == LET RECURSIVE go(_)
               go(i) == IF i = 0 THEN [ at |-> << >>, index |-> 0, bad |-> {} ]
                        ELSE LET s == go(i - 1) IN TLCEval(Step(r, s, r.events[i]))
           IN go(Len(r.events))
LifeNames == << "raised", "full_batch", "labels_and_points_belong_together",
  "number_of_points", "features", "scaling", "index_keeps_its_models",
  "every_model_once", "complete_epoch" >>
LifeClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET st == Life(r) IN
    [ i \in 1..Len(LifeNames) |-> << LifeNames[i], LifeNames[i] \notin st.bad >> ]
    \o << << "length", r.length = Batches(r.n, r.b) >>,
          << "sizes", r.sizes = [ i \in 1..r.b |-> r.samples ] >>,
          << "source_unchanged", r.unchanged >> >>

(* shuffles: the orders observed in many epochs of r.n models                 *)
Factorial(n) == LET f(i) == i IN ProdTo(f, n)
ShuffleClauses(r) ==
  << << "raised", r.err = "" >>,
     << "every_order_occurs", r.err = "" =>
          Range(r.orders) \subseteq Orders(r.n) /\ Cardinality(Range(r.orders)) = Factorial(r.n) >> >>

(* A training run: phases of r.epochs epochs, alternating training and        *)
(* validation; each phase with its batches.                                   *)
Phase(r, i) == r.phases[i]
PhaseAt(p) == [ k \in 0..(Len(p.batches) - 1) |-> p.batches[k + 1].ids ]
PhaseN(r, p) == IF p.training THEN r.train ELSE r.test
Hits(p) == LET f(i) == Cardinality({ j \in 1..Len(p.batches[i].ids) : p.batches[i].right[j] })
           IN SumTo(f, Len(p.batches))
ScriptClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE
   << << "alternates_training_and_validation", Len(r.phases) = 2 * r.epochs /\
          \A i \in 1..Len(r.phases) : r.phases[i].training = (i % 2 = 1) >>,
      << "every_model_once", \A i \in 1..Len(r.phases) : LET p == r.phases[i] IN
          Len(p.batches) = Batches(PhaseN(r, p), r.b) /\ EpochOk(PhaseAt(p), PhaseN(r, p), r.b) >>,
      << "sizes", \A i \in 1..Len(r.phases) : \A k \in 1..Len(r.phases[i].batches) :
          r.phases[i].batches[k].sizes = [ j \in 1..r.b |-> r.samples ] >>,
      << "accuracy", Len(r.accuracy) = Len(r.phases) /\ \A i \in 1..Len(r.phases) : LET p == r.phases[i]
                         m == Len(p.batches) * r.b IN
          m > 0 => Abs(r.accuracy[i] * m - Hits(p) * 100000) <= m >>,
      << "updates_only_in_training", r.updates = [ i \in 1..Len(r.phases) |->
          IF i % 2 = 1 THEN Batches(r.train, r.b) ELSE 0 ] >>,
      << "new_order_in_every_epoch", r.train >= 6 /\ r.epochs >= 3 =>
          Cardinality({ PhaseAt(r.phases[i]) : i \in { j \in 1..Len(r.phases) : r.phases[j].training } }) > 1 >> >>
(* Loading of the data set: category index and points of each listed model.   *)
DataClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE << << "labels", r.labels = r.wantLabels >>,
          << "points", r.points = r.wantPoints >>,
          << "number_of_classes", r.classes = r.wantClasses >> >>
ErrorClauses(r) == << << "rejected", r.got = r.want >> >>

Clauses(r) == CASE r.kind = "life" -> LifeClauses(r)
                [] r.kind = "shuffle" -> ShuffleClauses(r)
                [] r.kind = "script" -> ScriptClauses(r)
                [] r.kind = "data" -> DataClauses(r)
                [] r.kind = "error" -> ErrorClauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
