---------------------------- MODULE PointCloud ----------------------------
(* A batch of point clouds as an abstract value, its observations, and the  *)
(* object with cached derived data which the library keeps for it.           *)
(*                                                                           *)
(* cloud c: [ pts   sequence of points (segmented order),                    *)
(*            bids  batch id of every point,   bs  batch size,               *)
(*            vin   number of rows of the padded input, 0 if segmented ]     *)
(* shape: batch shape A1..An, <<>> when none is set.                         *)
EXTENDS Arith

Idx(n) == [ i \in 1..n |-> i ]
Rows(c, b) == SelectSeq(Idx(Len(c.bids)), LAMBDA i : c.bids[i] = b)
SizesFlat(c) == [ k \in 1..c.bs |-> Len(Rows(c, k - 1)) ]
MaxSize(c) == SetMax({ SizesFlat(c)[k] : k \in 1..c.bs })
Eff(c, shape) == IF shape = <<>> THEN << c.bs >> ELSE shape

----------------------------------------------------------------------------
(* Construction from the three representations                              *)
Prefix(rows, v, b, n) == [ j \in 1..n |-> rows[b * v + j] ]
FromPadded(rows, shape, v, sizes) ==
  LET bs == ProdSeq(shape)
      sz(b) == IF sizes = <<>> THEN v ELSE sizes[b + 1]
      RECURSIVE cat(_)
      cat(b) == IF b = bs THEN <<>> ELSE Prefix(rows, v, b, sz(b)) \o cat(b + 1)
      RECURSIVE ids(_)
      ids(b) == IF b = bs THEN <<>> ELSE [ j \in 1..sz(b) |-> b ] \o ids(b + 1)
  IN [ pts |-> cat(0), bids |-> ids(0), bs |-> bs, vin |-> v ]
FromSizes(pts, sizes) ==
  LET RECURSIVE ids(_)
      ids(b) == IF b = Len(sizes) THEN <<>> ELSE [ j \in 1..sizes[b + 1] |-> b ] \o ids(b + 1)
  IN [ pts |-> pts, bids |-> ids(0), bs |-> Len(sizes), vin |-> 0 ]
FromIds(pts, bids, bs) ==
  [ pts |-> pts, bids |-> bids, vin |-> 0,
    bs |-> IF bs > 0 THEN bs ELSE SetMax(Range(bids)) + 1 ]

----------------------------------------------------------------------------
(* Observations                                                              *)
(* an array observation is [ shape, rows ] with rows in row-major order      *)
RowCounts(c, max) == IF max > 0 THEN { max }
                     ELSE { MaxSize(c) } \cup (IF c.vin > 0 THEN { c.vin } ELSE {})
PaddedOk(c, shape, data, obs, max) ==
  LET n == Len(obs.shape)  eff == Eff(c, shape)  w == Len(data[1]) IN
  /\ n = Len(eff) + 2
  /\ SubSeq(obs.shape, 1, n - 2) = eff
  /\ obs.shape[n] = w
  /\ LET v == obs.shape[n - 1] IN
     /\ v \in RowCounts(c, max)
     /\ Len(obs.rows) = c.bs * v
     /\ \A b \in 0..(c.bs - 1) :
          LET rs == Rows(c, b) IN
          \A j \in 1..v : obs.rows[b * v + j] =
             IF j <= Len(rs) THEN data[rs[j]] ELSE Zeros(w)
SizesOk(c, shape, obs) == obs.shape = Eff(c, shape) /\ obs.rows = SizesFlat(c)
ElementOk(c, b, obs) == obs = [ j \in 1..Len(Rows(c, b)) |-> c.pts[Rows(c, b)[j]] ]
(* features in padded layout -> one row per point, in point order            *)
FlattenOk(c, v, rows, obs) ==
  /\ Len(obs) = Len(c.bids)
  /\ \A b \in 0..(c.bs - 1) : LET rs == Rows(c, b) IN
       \A j \in 1..Len(rs) : obs[rs[j]] = rows[b * v + j]

Ext(c, b, d) == LET S == { c.pts[i][d] : i \in Range(Rows(c, b)) }
                IN << SetMin(S), SetMax(S) >>
Width(c, b) == [ d \in 1..Len(c.pts[1]) |-> Ext(c, b, d)[2] - Ext(c, b, d)[1] ]

ShapeFits(c, s) == ProdSeq(s) = c.bs
============================================================================
