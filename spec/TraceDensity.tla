---------------------------- MODULE TraceDensity ----------------------------
(* Recorded density estimates.  All values are scaled by 2^20.               *)
EXTENDS Density, TraceBase
VARIABLE l

PairsOk(ps, np, nc) == \A k \in 1..Len(ps) :
  Len(ps[k]) = 2 /\ ps[k][1] \in 0..(np - 1) /\ ps[k][2] \in 0..(nc - 1)
Listed(ps, j) == { ps[k][1] + 1 : k \in { m \in 1..Len(ps) : ps[m][2] = j - 1 } }
(* the pairs are those of the radius search, or r.cap of them per center       *)
PairsExact(r, ps) ==
  /\ PairsOk(ps, Len(r.pts), Len(r.ctr))
  /\ \A j \in 1..Len(r.ctr) :
       LET nb == TLCEval(NbOf(r.pts, r.bids, r.ctr[j], r.cbids[j], W(r.t, r.k2)))
           got == TLCEval(Listed(ps, j)) IN
       IF r.cap = 0 THEN got = nb
       ELSE /\ got \subseteq nb
            /\ Cardinality(got) = IF r.cap < Cardinality(nb) THEN r.cap
                                            ELSE Cardinality(nb)
Size(ps, j) == Cardinality({ m \in 1..Len(ps) : ps[m][2] = j })
Values(r, ps, vals, den, norm) ==
  /\ Len(vals) = Len(ps)
  /\ LET size == TLCEval([ j \in 0..(Len(r.ctr) - 1) |-> Size(ps, j) ]) IN
     \A k \in 1..Len(ps) :
       LET v == den[ps[k][1] + 1]  n == size[ps[k][2]]
       IN IF norm THEN vals[k] # NAN /\ Abs(vals[k] * n - v) <= n + Tol(v, Len(r.pts))
          ELSE IsVal(vals[k], v, Len(r.pts))

KdeClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET n == Len(r.pts)  den == TLCEval(Densities(r.pts, r.bids, r.t, r.k2)) IN
    IF ~PairsExact(r, r.pairs) THEN << << "pairs", FALSE >> >>
    ELSE << << "of_each_neighbor", Values(r, r.pairs, r.pdf, den, FALSE) >>,
            << "own_order", Len(r.cloud) = n /\ \A i \in 1..n : IsVal(r.cloud[i], den[i], n) >>,
            << "divided_by_the_number_of_points", Len(r.cloudn) = n /\ \A i \in 1..n :
                 r.cloudn[i] # NAN /\ Abs(r.cloudn[i] * n - den[i]) <= n + Tol(den[i], n) >>,
            << "gradient", IsGrad(r.grad, r.pts, r.bids, r.up, r.t, r.k2) >>,
            << "gradient_of_pairs",
               LET cnt == [ i \in 1..n |-> r.up[i] * r.times[i] ]
               IN IsGrad(r.gradnb, r.pts, r.bids, cnt, r.t, r.k2) >>,
            << "in_neighborhoods", Values(r, r.pairs, r.innb, den, FALSE) >>,
            << "in_neighborhoods_normalized", Values(r, r.pairs, r.innbn, den, TRUE) >>,
            << "no_pdf", (\A k \in 1..Len(r.ones) : r.ones[k] = One) /\ Len(r.ones) = n
                         /\ (\A k \in 1..Len(r.onesnb) : r.onesnb[k] = One)
                         /\ Len(r.onesnb) = Len(r.pairs) >>,
            << "inside", Len(r.inside) = Len(r.pairs) /\
                 LET of == TLCEval([ j \in 1..Len(r.ctr) |-> Listed(r.pairs, j) ]) IN
                 \A k \in 1..Len(r.pairs) :
                 LET j == r.pairs[k][2] + 1 IN
                 IsVal(r.inside[k], DensityInside(r.pts, of[j],
                        r.pts[r.pairs[k][1] + 1], r.t, r.k2), n) >> >>

(* Histories: r.ops[k] = [op, opt = << variant, mode, normalize >>, pdf]       *)
HistClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE IF ~PairsExact(r, r.pairs) THEN << << "pairs", FALSE >> >>
  ELSE LET n == Len(r.pts)
           den == TLCEval([ v \in 1..Len(r.ts) |-> TLCEval(Densities(r.pts, r.bids, r.ts[v], r.k2s[v])) ])
           RECURSIVE st(_)
           st(k) == IF k = 0 THEN <<>> ELSE Step(st(k - 1), r.ops[k])
           right(s, vals) ==
             Values(r, r.pairs, vals,
                    IF s[2] = "no_pdf" THEN [ i \in 1..n |-> One ] ELSE den[s[1]], s[3])
       IN << << "state_after_each_call", \A k \in 1..Len(r.ops) :
                  r.ops[k].op = "get" => right(st(k), r.ops[k].pdf) >>,
             << "calls_succeed", \A k \in 1..Len(r.ops) : r.ops[k].err = "" >> >>
(* default options equal the documented ones                                  *)
DefaultClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE << << "defaults", Len(r.a) = Len(r.b) /\ \A k \in 1..Len(r.a) : Close(r.a[k], r.b[k], 1) >>,
          << "kept", r.c = r.a >> >>

Clauses(r) == CASE r.kind = "kde" -> KdeClauses(r)
                [] r.kind = "history" -> HistClauses(r)
                [] r.kind = "default" -> DefaultClauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
