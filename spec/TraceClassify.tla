---------------------------- MODULE TraceClassify ----------------------------
(* Recorded calls of the classification networks.                            *)
(*   r.calls[k] = [do, mode, shapes, rows, before, after, err]                *)
(* rows are the logits, scaled; before and after are digests of the parameters *)
(* and statistics of the network.  Versions follow from the calls (ClassifyMC). *)
EXTENDS Arith, TraceBase
VARIABLE l

Near(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) :
                     a[k] # NAN /\ b[k] # NAN /\ Close(a[k], b[k], tol)
Version(r, k) == Cardinality({ j \in 1..(k - 1) : r.calls[j].do = "train" })

NetClauses(r) ==
  LET cs == r.calls
      ks == 1..Len(cs)
      inf == { k \in ks : cs[k].do = "infer" }
      ver == TLCEval([ k \in ks |-> Version(r, k) ])
      full == \A k \in inf : Len(cs[k].rows) = Len(cs[k].shapes) /\
                \A j \in 1..Len(cs[k].rows) : Len(cs[k].rows[j]) = r.classes
      (* all rows of shape s in version v agree, for calls in the given modes   *)
      agree(P(_, _)) == \A k \in inf, m \in inf : k <= m /\ ver[k] = ver[m] /\ P(k, m) =>
        \A i \in 1..Len(cs[k].shapes), j \in 1..Len(cs[m].shapes) :
          cs[k].shapes[i] = cs[m].shapes[j] => Near(cs[k].rows[i], cs[m].rows[j], r.tol)
      same(k, m) == cs[k].mode = cs[m].mode
      other(k, m) == cs[k].mode # cs[m].mode
      rowsOf(k) == { cs[k].rows[i] : i \in 1..Len(cs[k].rows) }
  IN << << "raised", \A k \in ks : cs[k].err = "" >>,
        << "one_row_per_shape", full >>,
        << "own_points_only", full => agree(same) >>,
        << "eager_equals_graph", full => agree(other) >>,
        << "distinguishes_shapes", full =>
             \E k \in inf, m \in inf : \E x \in rowsOf(k), y \in rowsOf(m) : x # y >>,
        << "inference_changes_nothing", \A k \in inf : cs[k].before = cs[k].after >>,
        << "training_changes", \A k \in ks \ inf : cs[k].err = "" => cs[k].before # cs[k].after >>,
        << "all_parameters_trained", \A k \in 1..Len(r.untrained) : r.untrained[k] = 0 >> >>

Clauses(r) == IF r.err # "" THEN << << "raised", FALSE >> >> ELSE NetClauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
