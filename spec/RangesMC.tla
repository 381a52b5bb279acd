----------------------------- MODULE RangesMC -----------------------------
(* The CUDA search for the points of a row of cells: two binary searches in *)
(* the descending keys of a 2D column, for the cells c-1, c, c+1 along the  *)
(* last dimension.  The first coordinate of a cell names its column, the    *)
(* second one a row of it.                                                  *)
EXTENDS Arith, TLC
CONSTANTS NX, NY, NZ, N, Variant     \* cells per dimension, number of points
NC == << NX, NY, NZ >>
ASSUME Variant \in {"ok", "noRow", "strict", "oneEnd"}
VARIABLES keys, cell, lo, hi, minr, maxr, pc, out
vars == << keys, cell, lo, hi, minr, maxr, pc, out >>
Cells == { << x, y, z >> : x \in 0..(NC[1] - 1), y \in 0..(NC[2] - 1), z \in 0..(NC[3] - 1) }
Key(c) == (c[1] * NC[2] + c[2]) * NC[3] + c[3]
Keys == 0..(NC[1] * NC[2] * NC[3] - 1)
Desc(f) == \A i \in 1..(N - 1) : f[i] >= f[i + 1]
Col(k) == k \div (NC[2] * NC[3])
Row(k) == k \div NC[3]
First(c) == LET S == { i \in 1..N : Col(keys[i]) = Col(Key(c)) } IN IF S = {} THEN 0 ELSE SetMin(S)
Last(c) == LET S == { i \in 1..N : Col(keys[i]) = Col(Key(c)) } IN IF S = {} THEN 0 ELSE SetMax(S)
MinKey(c) == IF Variant = "noRow" THEN Key(c) - 1 ELSE Max2(Key(c) - 1, Row(Key(c)) * NC[3])
MaxKey(c) == IF Variant = "noRow" THEN Key(c) + 1 ELSE Min2(Key(c) + 1, Row(Key(c)) * NC[3] + NC[3] - 1)

Init == /\ keys \in { f \in [ 1..N -> Keys ] : Desc(f) }
        /\ cell \in Cells
        /\ lo = First(cell) /\ hi = Last(cell)
        /\ minr = << lo, hi >> /\ maxr = << lo, hi >>
        /\ pc = (IF lo = 0 THEN "done" ELSE "search") /\ out = << 0, 0 >>
Stop(r) == r[2] - r[1] <= 1
Search ==
  /\ pc = "search" /\ ~(Stop(minr) /\ Stop(maxr))
  /\ LET p == (minr[1] + minr[2]) \div 2
         q == (maxr[1] + maxr[2]) \div 2
         up == IF Variant = "strict" THEN keys[p] >= MaxKey(cell) ELSE keys[p] > MaxKey(cell)
     IN /\ minr' = (IF Stop(minr) THEN minr
                    ELSE IF up THEN << p, minr[2] >> ELSE << minr[1], p >>)
        /\ maxr' = (IF Stop(maxr) THEN maxr
                    ELSE IF keys[q] >= MinKey(cell) THEN << q, maxr[2] >> ELSE << maxr[1], q >>)
  /\ UNCHANGED << keys, cell, lo, hi, pc, out >>
In(i) == keys[i] >= MinKey(cell) /\ keys[i] <= MaxKey(cell)
Finish ==
  /\ pc = "search" /\ Stop(minr) /\ Stop(maxr)
  /\ out' = << IF In(minr[1]) THEN minr[1] ELSE IF In(minr[2]) THEN minr[2] ELSE 1,
               IF Variant # "oneEnd" /\ In(maxr[2]) THEN maxr[2] + 1
               ELSE IF In(maxr[1]) THEN maxr[1] + 1 ELSE 1 >>
  /\ pc' = "done" /\ UNCHANGED << keys, cell, lo, hi, minr, maxr >>
Next == Search \/ Finish
Spec == Init /\ [][Next]_vars

(* the points of the three cells of the same row, and no others              *)
Wanted == { i \in 1..N : Row(keys[i]) = Row(Key(cell)) /\ Abs(keys[i] - Key(cell)) <= 1 }
Exact == pc = "done" =>
  IF lo = 0 THEN Wanted = {} ELSE out[1]..(out[2] - 1) = Wanted
Shrinks == pc = "search" => minr[1] <= minr[2] /\ maxr[1] <= maxr[2]
                            /\ minr[1] >= lo /\ maxr[2] <= hi
============================================================================
