------------------------------ MODULE TraceRel ------------------------------
(* Relations between recorded runs: transposition of neighborhoods, forward   *)
(* maps and their gradients, runs on related batches.                         *)
EXTENDS Layers, Density, TraceBase
VARIABLE l

PairSet(ps) == { ps[k] : k \in 1..Len(ps) }
Valid(ps, a, b) == \A k \in 1..Len(ps) :
  Len(ps[k]) = 2 /\ ps[k][1] \in 0..(a - 1) /\ ps[k][2] \in 0..(b - 1)
Swap(ps) == { << p[2], p[1] >> : p \in PairSet(ps) }
RangesOk(rg, ps, n) ==
  /\ Len(rg) = n
  /\ n > 0 => rg[n] = Len(ps)
  /\ \A j \in 1..n : LET lo == IF j = 1 THEN 0 ELSE rg[j - 1] IN
       lo <= rg[j] /\ rg[j] <= Len(ps) /\ \A k \in (lo + 1)..rg[j] : ps[k][2] = j - 1

----------------------------------------------------------------------------
(* Transposition: r.ob, r.nb of the neighborhood, r.tob, r.tnb, r.trg of the   *)
(* transposed one with order r.torder of its grid, r.tt transposed twice       *)
TransClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET np == Len(r.pts)  nc == Len(r.ctr) IN
    IF ~(Valid(r.ob, np, nc) /\ Valid(r.tob, nc, np) /\ Valid(r.tnb, nc, np)
         /\ Valid(r.tt, np, nc) /\ IsPerm(r.torder, nc))
    THEN << << "ids_in_range", FALSE >> >>
    ELSE << << "converse", IF r.own THEN PairSet(r.tnb) = Swap(r.nb)
                           ELSE PairSet(r.tob) = Swap(r.ob) >>,
            << "radius_search", r.own \/ r.cap > 0 \/ \A i \in 1..np :
                 { p[1] + 1 : p \in { x \in PairSet(r.tob) : x[2] = i - 1 } }
                   = NbOf(r.ctr, r.cbids, r.pts[i], r.bids[i], W(r.t, r.k2)) >>,
            << "once", Cardinality(PairSet(r.tob)) = Len(r.tob) /\ Len(r.tob) = Len(r.ob) >>,
            << "ranges", RangesOk(r.trg, r.tnb, np) /\ RangesOk(r.trg, r.tob, np) >>,
            << "ids", Len(r.tob) = Len(r.tnb) /\ \A k \in 1..Len(r.tob) :
                 r.tob[k] = << r.torder[r.tnb[k][1] + 1], r.tnb[k][2] >> >>,
            << "twice", PairSet(r.tt) = PairSet(r.ob) >>,
            << "same_again", PairSet(r.again) = PairSet(r.tob) >>,
            << "density_of_the_new_neighbors",
               LET d == TLCEval(Densities(r.ctr, r.cbids, r.t, r.k2)) IN
               Len(r.pdf) = Len(r.tob) /\ \A k \in 1..Len(r.tob) :
                 IsVal(r.pdf[k], d[r.tob[k][1] + 1], nc) >> >>

----------------------------------------------------------------------------
(* Gradients: r.fwd[i][c][j][o] response of output (j, o) to a unit feature    *)
(* (i, c); r.grad[j][o][i][c] gradient.  Scaled values.                        *)
AdjClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET n == Len(r.bids)  m == Len(r.cbids) IN
    IF Len(r.fwd) # n \/ Len(r.grad) # m THEN << << "shape", FALSE >> >>
    ELSE << << "adjoint", \A i \in 1..n, c \in 1..r.C, j \in 1..m, o \in 1..r.O :
                 r.grad[j][o][i][c] # NAN /\ Close(r.fwd[i][c][j][o], r.grad[j][o][i][c], 3) >>,
            << "local", \A i \in 1..n, j \in 1..m :
                 (r.bids[i] # r.cbids[j] \/ (~r.global /\ ~InRange(r.pts[i], r.ctr[j], W(r.t, r.k2))))
                 => \A c \in 1..r.C, o \in 1..r.O : r.grad[j][o][i][c] = 0 >> >>
(* Gradient of a maximum: weights on the maximal neighbors, summing to one     *)
MaxGradClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET n == Len(r.bids)  m == Len(r.cbids)
           nb(j) == { i \in 1..n : r.bids[i] = r.cbids[j] /\
                        (r.global \/ InRange(r.pts[i], r.ctr[j], W(r.t, r.k2))) }
           top(j, c) == LET f(i) == r.feat[i][c] IN
                        { i \in nb(j) : r.feat[i][c] = MaxOver(f, nb(j)) }
       IN << << "other_channels", \A j \in 1..m, o \in 1..r.C, i \in 1..n, c \in 1..r.C :
                  c # o => r.grad[j][o][i][c] = 0 >>,
             << "maximal_neighbors_only", \A j \in 1..m, c \in 1..r.C : nb(j) # {} =>
                  \A i \in 1..n : r.grad[j][c][i][c] # 0 => i \in top(j, c) >>,
             << "sums_to_one", \A j \in 1..m, c \in 1..r.C : nb(j) # {} =>
                  LET f(i) == r.grad[j][c][i][c] IN
                  (\A i \in 1..n : f(i) # NAN) /\ Abs(SumTo(f, n) - r.scale) <= n >>,
             << "spread_evenly", \A j \in 1..m, c \in 1..r.C : nb(j) # {} =>
                  \A a \in top(j, c), b \in top(j, c) :
                    Abs(r.grad[j][c][a][c] - r.grad[j][c][b][c]) <= 1 >> >>

----------------------------------------------------------------------------
(* Related runs: point k of the second run is point pm[k] of the first, center  *)
(* k is center cm[k], batch element b is element bm[b + 1], moved by mv[b + 1]. *)
AddV(a, b) == [ d \in 1..Len(a) |-> a[d] + b[d] ]
RowsClose(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Close(a[k], b[k], tol) /\ b[k] # NAN
RelClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE
    << << "well_formed", \A k \in 1..Len(r.pm) : r.pm[k] \in 0..(Len(r.pts) - 1) >>,
       << "neighbors", r.subject = "pairs" =>
            /\ Valid(r.b, Len(r.pm), Len(r.cm))
            /\ { << r.pm[p[1] + 1], r.cm[p[2] + 1] >> : p \in PairSet(r.b) }
                 = { p \in PairSet(r.a) : \E k \in 1..Len(r.cm) : r.cm[k] = p[2] } >>,
       << "point_values", r.subject = "points" =>
            /\ Len(r.b) = Len(r.pm)
            /\ \A k \in 1..Len(r.pm) : RowsClose(r.a[r.pm[k] + 1], r.b[k], r.tol) >>,
       << "center_values", r.subject = "centers" =>
            /\ Len(r.b) = Len(r.cm)
            /\ \A k \in 1..Len(r.cm) : RowsClose(r.a[r.cm[k] + 1], r.b[k], r.tol) >>,
       << "element_values", r.subject = "elements" =>
            /\ Len(r.b) = Len(r.bm)
            /\ \A k \in 1..Len(r.bm) : RowsClose(r.a[r.bm[k] + 1], r.b[k], r.tol) >>,
       << "samples", r.subject = "samples" =>
            LET back(x) == << r.bm[x[1] + 1], [ d \in 1..Len(x[2]) |-> x[2][d] - r.mv[x[1] + 1][d] ] >>
            IN /\ Cardinality(PairSet(r.b)) = Len(r.b)
               /\ { back(x) : x \in PairSet(r.b) }
                    = { x \in PairSet(r.a) : \E k \in 1..Len(r.bm) : r.bm[k] = x[1] } >> >>

Clauses(r) == CASE r.kind = "transpose" -> TransClauses(r)
                [] r.kind = "adjoint" -> AdjClauses(r)
                [] r.kind = "maxgrad" -> MaxGradClauses(r)
                [] r.kind = "related" -> RelClauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
