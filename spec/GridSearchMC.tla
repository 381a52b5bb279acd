--------------------------- MODULE GridSearchMC ---------------------------
(* State machine of the grid search, explored exhaustively for small        *)
(* batches.  One action per stage of the library's pipeline.                *)
EXTENDS GridSearch
CONSTANTS XS, YS, CXS, CYS,   \* coordinates of points and centers
          NP,                 \* number of points
          NB,                 \* number of batch elements
          CellX, CellY,       \* cell sizes to try per dimension
          RadX, RadY,         \* radii to try per dimension (filtered: <= cell)
          Variant             \* "ok", or a deliberately wrong design
ASSUME Variant \in {"ok", "cellFromRadius", "ownColumn", "noPointClip",
                      "firstRadius", "noBatchMask"}

VARIABLES pts, bids, cell, rad, stage, box, nc, keys, order, ds, ctr, found
vars == << pts, bids, cell, rad, stage, box, nc, keys, order, ds, ctr, found >>

Points == { <<x, y>> : x \in XS, y \in YS }
Init ==
  /\ pts \in [ 1..NP -> Points ]
  /\ bids \in { f \in [ 1..NP -> 0..(NB - 1) ] : TRUE }
  /\ cell \in CellX \X CellY
  /\ rad \in RadX \X RadY
  /\ \A d \in 1..2 : rad[d] <= cell[d]
  /\ stage = "box" /\ box = <<>> /\ nc = <<>> /\ keys = <<>> /\ order = <<>>
  /\ ds = <<>> /\ ctr = <<>> /\ found = {}

ComputeBox == /\ stage = "box"
              /\ box' = Boxes(pts, bids, NB)
              /\ nc' = NumCells(box', cell)
              /\ stage' = "keys"
              /\ UNCHANGED << pts, bids, cell, rad, keys, order, ds, ctr, found >>
ComputeKeys == /\ stage = "keys"
               /\ keys' = IF Variant = "noPointClip"
                          THEN [ i \in 1..NP |-> Key(bids[i],
                                   [ d \in 1..2 |-> FloorDiv(pts[i][d] - box[bids[i]].min[d], cell[d]) ], nc) ]
                          ELSE Keys(pts, bids, box, cell, nc)
               /\ stage' = "sort"
               /\ UNCHANGED << pts, bids, cell, rad, box, nc, order, ds, ctr, found >>
Sort == /\ stage = "sort"
        /\ \E o \in [ 1..NP -> 0..(NP - 1) ] : IsSortOrder(o, keys) /\ order' = o
        /\ stage' = "ds"
        /\ UNCHANGED << pts, bids, cell, rad, box, nc, keys, ds, ctr, found >>
SKeys == [ i \in 1..Len(order) |-> keys[order[i] + 1] ]
BuildDS == /\ stage = "ds"
           /\ ds' = [ col \in 0..(NB * nc[1] * nc[2] - 1) |-> DsRange(SKeys, nc, col) ]
           /\ stage' = "search"
           /\ UNCHANGED << pts, bids, cell, rad, box, nc, keys, order, ctr, found >>

SearchVariant(c, cb) ==
  LET ac == IF Variant = "cellFromRadius" THEN rad ELSE cell
      r  == IF Variant = "firstRadius" THEN <<rad[1], rad[1]>> ELSE rad
      c2 == [ d \in 1..2 |-> Clip(FloorDiv(c[d] - box[cb].min[d], ac[d]), 0, nc[d] - 1) ]
      adj == IF Variant = "ownColumn" THEN { c2 } ELSE Adjacent(c2, nc)
      rs == { ds[ColumnOf(cb, a[1], a[2], nc)] : a \in adj }
      s == SetMin({ x[1] : x \in rs })  e == SetMax({ x[2] : x \in rs })
  IN { k \in s..(e - 1) :
         LET i == order[k + 1] + 1
         IN (Variant = "noBatchMask" \/ bids[i] = cb) /\ Near(pts[i], c, r) }

Search == /\ stage = "search"
          /\ \E x \in CXS, y \in CYS, cb \in 0..(NB - 1) :
               /\ ctr' = << <<x, y>>, cb >>
               /\ found' = SearchVariant(<<x, y>>, cb)
          /\ stage' = "done"
          /\ UNCHANGED << pts, bids, cell, rad, box, nc, keys, order, ds >>
Next == ComputeBox \/ ComputeKeys \/ Sort \/ BuildDS \/ Search
Spec == Init /\ [][Next]_vars

(* Properties *)
KeysInRange == stage \in {"sort", "ds", "search", "done"} =>
  \A i \in 1..NP : keys[i] \in 0..(NB * nc[1] * nc[2] - 1)
KeysSeparateBatches == stage \in {"sort"} =>
  \A i, j \in 1..NP : bids[i] < bids[j] => keys[i] < keys[j]
KeyIsCell == stage = "sort" =>
  \A i, j \in 1..NP : keys[i] = keys[j] <=>
     bids[i] = bids[j] /\ CellIdx(pts[i], box[bids[i]], cell, nc) = CellIdx(pts[j], box[bids[j]], cell, nc)
DSPartition == stage \in {"search", "done"} =>
  /\ \A k \in 1..NP : Cardinality({ col \in DOMAIN ds : ds[col][1] < k /\ k <= ds[col][2] }) = 1
  /\ \A col \in DOMAIN ds : RangeRight(ds[col], SKeys, nc, col)
SearchExact == stage = "done" =>
  { order[k + 1] : k \in found } = Neighbors(pts, bids, ctr[1], ctr[2], rad)
============================================================================
