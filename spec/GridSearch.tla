---------------------------- MODULE GridSearch ----------------------------
(* The regular grid of a batch of point clouds and the fixed radius        *)
(* neighbor search on it, as the library performs it:                      *)
(*   bounding box -> cell keys -> descending sort -> 2D data structure ->   *)
(*   per center scan of the nine adjacent 2D cells.                         *)
(* Coordinates, cell sizes and radii are integers (lattice units).          *)
(* Point ids, batch ids, cells and keys count from 0 as in the library;     *)
(* sequences are 1-based, so point id i is pts[i + 1].                      *)
EXTENDS Arith, TLC

Dims(pts) == Len(pts[1])

----------------------------------------------------------------------------
(* Bounding boxes *)
BatchRows(bids, b) == { i \in 1..Len(bids) : bids[i] = b }
AabbMin(pts, bids, b, d) == SetMin({ pts[i][d] : i \in BatchRows(bids, b) })
AabbMax(pts, bids, b, d) == SetMax({ pts[i][d] : i \in BatchRows(bids, b) })
NonEmpty(bids, bs) == { b \in 0..(bs - 1) : BatchRows(bids, b) # {} }

(* A box is a function batch -> [min, max]; empty batch elements get a     *)
(* degenerate box which no point refers to.                                *)
Boxes(pts, bids, bs) ==
  TLCEval([ b \in 0..(bs - 1) |->
      IF BatchRows(bids, b) = {}
      THEN [ min |-> Zeros(Dims(pts)), max |-> Zeros(Dims(pts)) ]
      ELSE [ min |-> [ d \in 1..Dims(pts) |-> AabbMin(pts, bids, b, d) ],
             max |-> [ d \in 1..Dims(pts) |-> AabbMax(pts, bids, b, d) ] ] ])

----------------------------------------------------------------------------
(* Cells and keys *)
NumCells(box, cell) ==
  [ d \in 1..Len(cell) |->
      Max2(1, SetMax({ CeilDiv(box[b].max[d] - box[b].min[d], cell[d])
                       : b \in DOMAIN box })) ]

CellIdx(p, bx, cell, nc) ==
  [ d \in 1..Len(cell) |-> Clip(FloorDiv(p[d] - bx.min[d], cell[d]), 0, nc[d] - 1) ]

Key(b, c, nc) ==
  LET RECURSIVE go(_)
      go(d) == IF d = 0 THEN b ELSE go(d - 1) * nc[d] + c[d]
  IN go(Len(nc))

Keys(pts, bids, box, cell, nc) ==
  TLCEval([ i \in 1..Len(pts) |-> Key(bids[i], CellIdx(pts[i], box[bids[i]], cell, nc), nc) ])

Descending(s) == \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1]

(* order: sequence of point ids (0-based) *)
IsSortOrder(order, keys) ==
  /\ IsPerm(order, Len(keys))
  /\ Descending([ i \in 1..Len(order) |-> keys[order[i] + 1] ])

----------------------------------------------------------------------------
(* 2D data structure: half open ranges of positions in the sorted order    *)
CellsPer2D(nc) == LET f(i) == nc[i + 2] IN ProdTo(f, Len(nc) - 2)
Column(key, nc) == key \div CellsPer2D(nc)        \* linear (batch, x, y) index
ColumnOf(b, x, y, nc) == (b * nc[1] + x) * nc[2] + y
InColumn(skeys, nc, col) == { i \in 1..Len(skeys) : Column(skeys[i], nc) = col }
DsRange(skeys, nc, col) ==
  LET S == InColumn(skeys, nc, col)
  IN IF S = {} THEN <<0, 0>> ELSE << SetMin(S) - 1, SetMax(S) >>

(* A range r is right for column col when it covers exactly its points     *)
RangeRight(r, skeys, nc, col) ==
  IF InColumn(skeys, nc, col) = {} THEN r[1] = r[2]
  ELSE r = DsRange(skeys, nc, col)

----------------------------------------------------------------------------
(* The neighbor relation: same batch element and normalised distance < 1.  *)
(* Differences are bounded by the radii before they are multiplied.         *)
Sq(x) == x * x
(* With radii g * a_d and A = lcm of the a_d the test sum (diff_d/rad_d)^2 < 1 *)
(* becomes sum (diff_d * A/a_d)^2 < (g * A)^2.                                *)
NormNum(p, c, rad, g, A) ==
  LET f(d) == Sq((p[d] - c[d]) * (A \div (rad[d] \div g))) IN SumTo(f, Len(rad))
BoxClose(p, c, rad) == \A d \in 1..Len(rad) : Abs(p[d] - c[d]) <= rad[d]
RadG(rad) == GcdSeq(rad)
RadA(rad) == LcmSeq([ d \in 1..Len(rad) |-> rad[d] \div RadG(rad) ])
Near(p, c, rad) == /\ BoxClose(p, c, rad)
                   /\ NormNum(p, c, rad, RadG(rad), RadA(rad)) < Sq(RadG(rad) * RadA(rad))
OnBoundary(p, c, rad) == /\ BoxClose(p, c, rad)
                         /\ NormNum(p, c, rad, RadG(rad), RadA(rad)) = Sq(RadG(rad) * RadA(rad))

(* Brute force definition: the set of neighbor ids of a center             *)
Neighbors(pts, bids, c, cb, rad) ==
  { i \in 0..(Len(pts) - 1) : bids[i + 1] = cb /\ Near(pts[i + 1], c, rad) }

(* On the exact boundary the contract (normalised distance < 1) can only be *)
(* told apart in floating point when the division by the radius is exact.    *)
(* Must: neighbors in any case; May: also those on an inexact boundary.      *)
IsPow2(n) == n \in { 1, 2, 4, 8, 16, 32, 64, 128, 256, 512 }
ExactBoundary(p, c, rad) ==
  \/ \A d \in 1..Len(rad) : IsPow2(rad[d])
  \/ Cardinality({ d \in 1..Len(rad) : p[d] # c[d] }) <= 1
MayNear(p, c, rad) == \/ Near(p, c, rad)
                      \/ OnBoundary(p, c, rad) /\ ~ExactBoundary(p, c, rad)
MustNb(pts, bids, c, cb, rad) == Neighbors(pts, bids, c, cb, rad)
MayNb(pts, bids, c, cb, rad) ==
  { i \in 0..(Len(pts) - 1) : bids[i + 1] = cb /\ MayNear(pts[i + 1], c, rad) }

----------------------------------------------------------------------------
(* The scan of the library: positions in the sorted order                  *)
Adjacent(c2, nc) ==
  { << Clip(c2[1] + dx, 0, nc[1] - 1), Clip(c2[2] + dy, 0, nc[2] - 1) >>
    : dx \in -1..1, dy \in -1..1 }

ScanRange(c, cb, bx, cell, nc, skeys) ==
  LET c2 == CellIdx(c, bx, cell, nc)
      rs == { DsRange(skeys, nc, ColumnOf(cb, a[1], a[2], nc)) : a \in Adjacent(c2, nc) }
  IN << SetMin({ r[1] : r \in rs }), SetMax({ r[2] : r \in rs }) >>

Scan(pts, bids, order, skeys, c, cb, bx, cell, nc, rad) ==
  LET r == ScanRange(c, cb, bx, cell, nc, skeys)
  IN { k \in r[1]..(r[2] - 1) :
         LET i == order[k + 1] + 1
         IN bids[i] = cb /\ Near(pts[i], c, rad) }

============================================================================
