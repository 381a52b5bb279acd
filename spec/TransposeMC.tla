---------------------------- MODULE TransposeMC ----------------------------
(* The transposed neighborhood as the library builds it: reverse the pairs,   *)
(* sort them by the new center (stable), renumber the new neighbors to the     *)
(* sorted order of their grid and count the pairs per center into cumulative   *)
(* ranges.  The result must describe the converse relation, for all relations  *)
(* (also with centers without neighbors) and all orders of the new grid.       *)
EXTENDS Arith, TLC
CONSTANTS N, M, Variant
ASSUME Variant \in {"ok", "noSort", "countsOnly", "oldOrder"}
VARIABLES rel,       \* pairs in the order of the old neighborhood (grouped by center)
          order,     \* order[k]: center at sorted position k of the new grid
          orig, nbr, ranges, pc
vars == << rel, order, orig, nbr, ranges, pc >>

AllPairs == { s \in SUBSET ((1..N) \X (1..M)) : TRUE }
(* listing of a relation grouped by center *)
Listing(S) ==
  LET RECURSIVE go(_)
      go(T) == IF T = {} THEN <<>>
               ELSE LET p == CHOOSE x \in T : \A y \in T :
                               x[2] < y[2] \/ (x[2] = y[2] /\ x[1] <= y[1])
                    IN << p >> \o go(T \ { p })
  IN go(S)
Perms == { p \in [ 1..M -> 1..M ] : Cardinality(Range(p)) = M }
Init == /\ rel \in { Listing(S) : S \in AllPairs }
        /\ order \in Perms
        /\ orig = <<>> /\ nbr = <<>> /\ ranges = <<>> /\ pc = "reverse"
Reverse == /\ pc = "reverse"
           /\ orig' = [ k \in 1..Len(rel) |-> << rel[k][2], rel[k][1] >> ]
           /\ pc' = IF Variant = "noSort" THEN "renumber" ELSE "sort"
           /\ UNCHANGED << rel, order, nbr, ranges >>
(* one step of a stable sort by the center *)
SortStep == /\ pc = "sort"
            /\ LET bad == { k \in 1..(Len(orig) - 1) : orig[k][2] > orig[k + 1][2] } IN
               IF bad = {} THEN pc' = "renumber" /\ UNCHANGED orig
               ELSE LET k == SetMin(bad) IN
                    /\ orig' = [ orig EXCEPT ![k] = orig[k + 1], ![k + 1] = orig[k] ]
                    /\ UNCHANGED pc
            /\ UNCHANGED << rel, order, nbr, ranges >>
Pos(i) == CHOOSE k \in 1..M : order[k] = i
Renumber == /\ pc = "renumber"
            /\ nbr' = [ k \in 1..Len(orig) |->
                 << IF Variant = "oldOrder" THEN orig[k][1] ELSE Pos(orig[k][1]), orig[k][2] >> ]
            /\ pc' = "ranges"
            /\ UNCHANGED << rel, order, orig, ranges >>
Cnt(i) == Cardinality({ k \in 1..Len(orig) : orig[k][2] = i })
Count_ == /\ pc = "ranges"
          /\ ranges' = [ i \in 1..N |->
               IF Variant = "countsOnly" THEN Cnt(i)
               ELSE LET f(x) == Cnt(x) IN SumTo(f, i) ]
          /\ pc' = "done"
          /\ UNCHANGED << rel, order, orig, nbr >>
Spec == Init /\ [][Reverse \/ SortStep \/ Renumber \/ Count_]_vars

Converse == pc = "done" =>
  { orig[k] : k \in 1..Len(orig) } = { << p[2], p[1] >> : p \in Range(rel) }
Ids == pc = "done" => \A k \in 1..Len(nbr) :
  orig[k] = << order[nbr[k][1]], nbr[k][2] >>
RangesRight == pc = "done" => \A i \in 1..N :
  LET lo == IF i = 1 THEN 0 ELSE ranges[i - 1] IN
  { k \in 1..Len(nbr) : nbr[k][2] = i } = (lo + 1)..ranges[i]
============================================================================
