----------------------------- MODULE Sampling -----------------------------
(* Poisson disk sampling as a process of random choices, and cell average   *)
(* sampling as a function of the grid cells.                                 *)
EXTENDS GridSearch

(* p and q exclude each other: same batch element, closer than the radius    *)
Excl(pts, bids, rad, i, j) == bids[i] = bids[j] /\ Near(pts[i], pts[j], rad)
Covered(pts, bids, rad, chosen) ==
  { i \in 1..Len(pts) : \E j \in chosen : Excl(pts, bids, rad, i, j) }
Independent(pts, bids, rad, S) ==
  \A i \in S, j \in S : i # j => ~Excl(pts, bids, rad, i, j)
Dominating(pts, bids, rad, S) == Covered(pts, bids, rad, S) = 1..Len(pts)

(* occupied cells: sets of point numbers with the same batch element and     *)
(* cell (not numbered, so that grids may have billions of cells)             *)
CellKeys(pts, bids, box, cell) == LET nc == TLCEval(NumCells(box, cell)) IN
  TLCEval([ i \in 1..Len(pts) |-> << bids[i], TLCEval(CellIdx(pts[i], box[bids[i]], cell, nc)) >> ])
Groups(ks) == { { i \in 1..Len(ks) : ks[i] = k } : k \in Range(ks) }
GroupSum(pts, G, d) == LET f(i) == pts[i][d] IN SumOver(f, G)
============================================================================
