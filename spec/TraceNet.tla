------------------------------ MODULE TraceNet ------------------------------
(* Recorded networks: the layer calls (r.ev, normalisations and convolutions   *)
(* in order; r.pr, projections) must be a behaviour of the program of the      *)
(* network.  All values are scaled by r.scale and compared up to rounding.     *)
EXTENDS Layers, NetOps, TraceBase
VARIABLE l

NetClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE
  LET n == Size(r.net)  c == [ bids |-> r.bids, bs |-> r.bs, vin |-> r.vin ]
      ops == [ k \in 1..Len(r.ev) |-> r.ev[k].op ]
      x0 == [ i \in 1..Len(r.bids) |->
                LET x == FeatRow(r.frows, r.fv, r.bids, i)
                IN [ k \in 1..Len(x) |-> r.scale * x[k] ] ]
  IN IF ops # Program(r.net, r.blocks) THEN << << "program", FALSE >> >>
     ELSE IF Len(r.pr) # (IF r.proj THEN r.blocks ELSE 0) THEN << << "projections", FALSE >> >>
     ELSE
     LET E(i, k) == r.ev[((i - 1) * n) + k]
         Skip(i) == IF r.proj THEN r.pr[i].out ELSE E(i, 1).inn
         End(i) == AddRows(E(i, n).out, Skip(i))
         Want(i, k) == IF k = 1 THEN (IF i = 1 THEN x0 ELSE End(i - 1))
                       ELSE IF E(i, k).op = "bn" THEN E(i, k - 1).out
                       ELSE ActRows(r.act, E(i, k - 1).out)
     IN << << "program", TRUE >>, << "projections", TRUE >>,
           << "dataflow", \A i \in 1..r.blocks, k \in 1..n : SameRows(Want(i, k), E(i, k).inn) >>,
           << "skip", \A i \in 1..Len(r.pr) : SameRows(E(i, 1).inn, r.pr[i].inn) >>,
           << "normalisation", \A i \in 1..r.blocks, k \in 1..n :
                E(i, k).op = "bn" => NormOk(r, E(i, k)) >>,
           << "layer_on_its_clouds", \A i \in 1..r.blocks, k \in 1..n :
                E(i, k).op # "bn" => SameRows(E(i, k).ref, E(i, k).out) >>,
           << "projection_layer", \A i \in 1..Len(r.pr) : SameRows(r.pr[i].ref, r.pr[i].out) >>,
           << "own_layers", Cardinality({ r.ev[k].id : k \in 1..Len(r.ev) }
                                        \cup { r.pr[k].id : k \in 1..Len(r.pr) })
                              = Len(r.ev) + Len(r.pr) >>,
           << "widths", \A i \in 1..r.blocks, k \in 1..n : \A q \in 1..Len(E(i, k).inn) :
                Len(E(i, k).inn[q]) = (IF FullBefore(r.net, k) THEN r.width ELSE r.small) >>,
           << "output", LayoutOk(r.out, c, r.shape, r.width)
                          /\ SameRows(End(r.blocks), OutRows(r.out, c)) >> >>

Clauses(r) == NetClauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
