----------------------------- MODULE TraceBlock -----------------------------
(* Recorded residual blocks and classification networks: the calls of layers   *)
(* must be a behaviour of the two paths of the block (in any order) or of the   *)
(* chain of stages.  r.ev[k] = [op, inn, out, ref, g, m, b, id]; ref is the     *)
(* value of the same layer on the clouds and with the radius it should get.    *)
EXTENDS NetOps, TraceBase
VARIABLE l

Sub(r, S) == [ k \in 1..Cardinality(S) |->
                 r.ev[CHOOSE i \in S : Cardinality({ j \in S : j < i }) = k - 1] ]
Ops(es) == [ k \in 1..Len(es) |-> es[k].op ]
(* values travel along a path which starts with x                              *)
Flow(r, x, es) == \A k \in 1..Len(es) :
  SameRows(IF k = 1 THEN x
           ELSE IF es[k - 1].op = "bn" THEN ActRows("leaky", es[k - 1].out)
           ELSE es[k - 1].out, es[k].inn)
End(x, es) == IF es = <<>> THEN x ELSE es[Len(es)].out
Layers(r) ==
  << << "normalisation", \A k \in 1..Len(r.ev) : r.ev[k].op = "bn" => NormOk(r, r.ev[k]) >>,
     << "layer_on_its_clouds", \A k \in 1..Len(r.ev) :
          r.ev[k].op # "bn" => SameRows(r.ev[k].ref, r.ev[k].out) >>,
     << "own_layers", Cardinality({ r.ev[k].id : k \in 1..Len(r.ev) }) = Len(r.ev) >> >>

BlockClauses(r) ==
  LET n == Len(r.ev)
      split == { S \in SUBSET (1..n) :
                   /\ Cardinality(S) = Len(Long)
                   /\ Ops(Sub(r, S)) = Long
                   /\ Ops(Sub(r, (1..n) \ S)) = Short(r.strided, r.proj) }
  IN IF split = {} THEN << << "program", FALSE >> >>
     ELSE << << "program", TRUE >>,
             << "dataflow", \E S \in split :
                  LET p == Sub(r, S)  q == Sub(r, (1..n) \ S) IN
                  /\ Flow(r, r.x, p) /\ Flow(r, r.x, q)
                  /\ SameRows(AddRows(End(r.x, p), End(r.x, q)), r.y) >>,
             << "small_width", \A k \in 1..n : r.ev[k].op = "conv" =>
                  \A i \in 1..Len(r.ev[k].inn) : Len(r.ev[k].inn[i]) = r.small >> >>
          \o Layers(r)

ChainClauses(r) ==
  IF Ops(r.ev) # Chain(r.net, r.levels) THEN << << "program", FALSE >> >>
  ELSE << << "program", TRUE >>,
          << "dataflow", Flow(r, r.x, r.ev) /\ SameRows(End(r.x, r.ev), r.y) >> >>
       \o Layers(r)

Clauses(r) == IF r.err # "" THEN << << "raised", FALSE >> >>
              ELSE CASE r.kind = "block" -> BlockClauses(r)
                     [] r.kind = "chain" -> ChainClauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
