------------------------------ MODULE Density ------------------------------
(* Kernel density estimates and the object keeping them.                     *)
(*                                                                           *)
(* Bandwidths and radii are chosen such that the Gaussian sums are dyadic:   *)
(* with lattice unit s, bandwidth k / sqrt(2 pi) and radius                  *)
(* s * sqrt(pi / (ln 2 * t)) / k in a dimension, a difference of n lattice   *)
(* units contributes the factor 1/k * 2^(-t n^2), and two points are          *)
(* neighbors exactly if sum n_d^2 w_d <= 18 with w_d = 4 t_d k_d^2 (equality *)
(* of the real bound 18.13 is impossible).  k is given as k2 = 2k.           *)
EXTENDS Arith, TLC

FracBits == 20                       \* values are scaled by 2^20
W(t, k2) == [ d \in 1..Len(t) |-> t[d] * k2[d] * k2[d] ]
InRange(p, q, w) == /\ \A d \in 1..Len(w) : Abs(p[d] - q[d]) <= 5
                    /\ LET f(d) == (p[d] - q[d]) * (p[d] - q[d]) * w[d]
                       IN SumTo(f, Len(w)) <= 18
Exponent(p, q, t) == LET f(d) == (p[d] - q[d]) * (p[d] - q[d]) * t[d] IN SumTo(f, Len(t))
(* 2^(20 - e) * prod 2 / k2 with k2 a power of two *)
Kernel(p, q, t, k2) ==
  LET e == Exponent(p, q, t)
  IN IF e > FracBits THEN 0 ELSE (Pow2(FracBits - e) * Pow2(Len(t))) \div ProdSeq(k2)
NbOf(pts, bids, p, b, w) == { i \in 1..Len(pts) : bids[i] = b /\ InRange(pts[i], p, w) }
(* density at position p of element b, scaled                                *)
DensityAt(pts, bids, p, b, t, k2) ==
  LET f(i) == Kernel(pts[i], p, t, k2) IN SumOver(f, NbOf(pts, bids, p, b, W(t, k2)))
Densities(pts, bids, t, k2) ==
  [ i \in 1..Len(pts) |-> DensityAt(pts, bids, pts[i], bids[i], t, k2) ]
(* density of p among the neighbors of a center c                            *)
DensityInside(pts, nb, p, t, k2) ==
  LET f(i) == Kernel(pts[i], p, t, k2) IN SumOver(f, nb)
(* The derivative of sum_i up[i] * density(i) with respect to coordinate d of *)
(* point m, in units 2 ln 2 / s and scaled by 2^16: the kernel of two points  *)
(* counts in the densities of both.  (Of hundreds of points, one in 16 is      *)
(* looked at.)                                                                 *)
GradTerm(p, q, d, t, k2) == (Kernel(q, p, t, k2) * t[d] * (p[d] - q[d])) \div 16
IsGrad(g, pts, bids, up, t, k2) ==
  /\ Len(g) = Len(pts)
  /\ \A m \in { k \in 1..Len(pts) : Len(pts) < 200 \/ k % 16 = 1 } :
       LET nb == TLCEval(NbOf(pts, bids, pts[m], bids[m], W(t, k2)))
           wt(i) == Abs(up[m]) + Abs(up[i]) + 1
       IN \A d \in 1..Len(t) :
            LET f(i) == -(up[m] + up[i]) * GradTerm(pts[m], pts[i], d, t, k2)
                e(i) == wt(i) * (1 + (Abs(GradTerm(pts[m], pts[i], d, t, k2)) \div 1024))
            IN Close(g[m][d], SumOver(f, nb), 1 + SumOver(e, nb))
One == Pow2(FracBits)
(* floating point tolerance, relative 2^-12 and the cut off tails             *)
Tol(v, n) == 1 + 4 * n + (v \div 4096)
IsVal(x, v, n) == Close(x, v, Tol(v, n))

----------------------------------------------------------------------------
(* The cache of a neighborhood: state is <<>> or the options of the densities *)
(* it holds, << variant, mode, normalize >>.                                 *)
Compute(st, o) == o
Get(st, o) == IF st = <<>> THEN o ELSE st
Step(st, call) == IF call.op = "compute" THEN Compute(st, call.opt) ELSE Get(st, call.opt)
============================================================================
