------------------------------- MODULE Layers -------------------------------
(* Point cloud layers as functions: layouts of features, poolings, basis      *)
(* projection and the three convolutions, each given by its defining sum over *)
(* the neighborhood.  Weights and features are integers, relative positions   *)
(* are lattice differences, correlations and densities fixed point numbers.   *)
EXTENDS GridSearch, PointCloud

----------------------------------------------------------------------------
(* Layouts: cloud c = [bids, bs, vin], shape <<>> if no batch shape is set     *)
(* features given as rows, padded to fv rows per element or flat (fv = 0)      *)
PosIn(bids, i) == Cardinality({ k \in 1..i : bids[k] = bids[i] })
FeatRow(rows, fv, bids, i) ==
  IF fv = 0 THEN rows[i] ELSE rows[bids[i] * fv + PosIn(bids, i)]
Feats(rows, fv, bids) == [ i \in 1..Len(bids) |-> FeatRow(rows, fv, bids, i) ]

RECURSIVE SortedFrom(_, _)
SortedFrom(c, b) == IF b = c.bs THEN <<>> ELSE Rows(c, b) \o SortedFrom(c, b + 1)
BatchOrder(c) == SortedFrom(c, 0)          \* stable order by batch element

(* output observation o = [layout, shape, rows]: shape and padding             *)
LayoutOk(o, c, shape, w) ==
  LET n == Len(o.shape)  np == Len(c.bids) IN
  IF o.layout # "padded" THEN o.shape = << np, w >> /\ Len(o.rows) = np
  ELSE /\ n = Len(Eff(c, shape)) + 2
       /\ SubSeq(o.shape, 1, n - 2) = Eff(c, shape)
       /\ o.shape[n] = w
       /\ o.shape[n - 1] \in RowCounts(c, 0)
       /\ Len(o.rows) = c.bs * o.shape[n - 1]
       /\ \A b \in 0..(c.bs - 1) : \A j \in (Len(Rows(c, b)) + 1)..o.shape[n - 1] :
            o.rows[b * o.shape[n - 1] + j] = Zeros(w)
(* output rows in the order of the points                                      *)
OutRows(o, c) ==
  IF o.layout = "flat" THEN o.rows
  ELSE IF o.layout = "sorted"
  THEN LET ord == TLCEval(BatchOrder(c))
       IN [ i \in 1..Len(c.bids) |-> o.rows[CHOOSE k \in 1..Len(ord) : ord[k] = i] ]
  ELSE LET v == o.shape[Len(o.shape) - 1]
       IN [ i \in 1..Len(c.bids) |-> o.rows[c.bids[i] * v + PosIn(c.bids, i)] ]

----------------------------------------------------------------------------
(* Aggregation over the neighborhood.  nbs[j]: set of (1-based) input points   *)
NbSets(pts, bids, ctr, cbids, rad) ==
  [ j \in 1..Len(ctr) |-> { i + 1 : i \in Neighbors(pts, bids, ctr[j], cbids[j], rad) } ]
MaxOver(f(_), S) == LET V == { f(i) : i \in S } IN SetMax(V)
Diff(p, c) == [ d \in 1..Len(p) |-> p[d] - c[d] ]
Dot(a, b) == LET f(d) == a[d] * b[d] IN SumTo(f, Len(a))
ColDot(x, m, k) == LET f(d) == x[d] * m[d][k] IN SumTo(f, Len(x))   \* (x m)[k]

(* basis projection: sum over neighbors of basis value times feature           *)
Projection(nb, basis(_, _), feat, c, h) ==
  LET f(i) == basis(i, h) * feat[i][c] IN SumOver(f, nb)

----------------------------------------------------------------------------
(* Kernel perceptrons with integer weights.  Values after layer l are scaled   *)
(* by 5^l (leaky) or 1 (relu, elu).                                            *)
ExpTable == << 24109, 8869, 3263, 1200, 442, 162, 60, 22, 8, 3, 1 >>   \* 2^16 exp(-k)
Act(kind, x) ==
  CASE kind = "relu" -> IF x > 0 THEN x ELSE 0
    [] kind = "leaky" -> IF x >= 0 THEN 5 * x ELSE x
    \* elu is only used with one layer; its values are scaled by 2^16
    [] kind = "elu" -> IF x >= 0 THEN x * 65536
                       ELSE (IF x < -11 THEN 0 ELSE ExpTable[-x]) - 65536
Scale(kind) == CASE kind = "relu" -> 1 [] kind = "leaky" -> 5 [] kind = "elu" -> 65536
(* ws[l]: matrix of layer l, bs[l]: its biases; x: input vector                *)
RECURSIVE Mlp(_, _, _, _, _)
Mlp(kind, ws, bs, x, l) ==
  IF l = 0 THEN x
  ELSE LET y == Mlp(kind, ws, bs, x, l - 1)
           sc == Scale(kind) ^ (l - 1)
       IN [ h \in 1..Len(bs[l]) |-> Act(kind, ColDot(y, ws[l], h) + sc * bs[l][h]) ]

----------------------------------------------------------------------------
(* Correlation of a difference (squared lattice length d2) with a kernel point *)
(* at influence distance sigma, scaled by 2^11                                 *)
CorrBits == 11
Corr(kind, d2, sn, sd) ==        \* sigma = sn / sd lattice units (linear)
  IF kind = "linear"
  THEN IF d2 > 255 \/ d2 * sd * sd >= sn * sn THEN 0
       ELSE Pow2(CorrBits) - (ISqrt(d2 * Pow2(22)) * sd) \div sn
  ELSE LET e == sn * d2          \* Gaussian: 2^(-sn d2)
       IN IF e > CorrBits THEN 0 ELSE Pow2(CorrBits - e)
Norm2(a) == LET f(d) == a[d] * a[d] IN SumTo(f, Len(a))
============================================================================
