---------------------------- MODULE AggregateMC ----------------------------
(* How the library aggregates: the neighbor pairs (ids in the sorted order of *)
(* the grid) are processed in any order, every pair adds its contribution to   *)
(* the row of its center.  When all pairs are done, every row is the sum over   *)
(* the neighborhood, whatever the order of the points and of the pairs.        *)
EXTENDS Arith, TLC
CONSTANTS N,          \* input points
          M,          \* centers
          Vals,       \* feature values
          Variant     \* "ok" or a wrong design
ASSUME Variant \in {"ok", "sortedIds", "allBatches", "overwrite"}
VARIABLES order,      \* order[k]: input point at sorted position k
          bat,        \* batch element of the input points
          cbat,       \* and of the centers
          feat,       \* feature of every input point
          near,       \* relation of the radius search: pairs (point, center)
          todo,       \* pairs still to process: (sorted position, center)
          acc         \* one row per center
vars == << order, bat, cbat, feat, near, todo, acc >>
Perms == { p \in [ 1..N -> 1..N ] : Cardinality(Range(p)) = N }
Init ==
  /\ order \in Perms
  /\ bat \in [ 1..N -> 0..1 ]
  /\ cbat \in [ 1..M -> 0..1 ]
  /\ feat \in [ 1..N -> Vals ]
  /\ near \in SUBSET ((1..N) \X (1..M))
  /\ todo = { << k, j >> \in (1..N) \X (1..M) :
                << order[k], j >> \in near /\ (Variant = "allBatches" \/ bat[order[k]] = cbat[j]) }
  /\ acc = [ j \in 1..M |-> 0 ]
Value(k) == IF Variant = "sortedIds" THEN feat[k] ELSE feat[order[k]]
Step == \E p \in todo :
  /\ todo' = todo \ { p }
  /\ acc' = [ acc EXCEPT ![p[2]] = IF Variant = "overwrite" THEN Value(p[1])
                                   ELSE @ + Value(p[1]) ]
  /\ UNCHANGED << order, bat, cbat, feat, near >>
Spec == Init /\ [][Step]_vars

Nb(j) == { i \in 1..N : << i, j >> \in near /\ bat[i] = cbat[j] }
Definition == todo = {} =>
  \A j \in 1..M : acc[j] = LET f(i) == feat[i] IN SumOver(f, Nb(j))
Partial == \A j \in 1..M :
  acc[j] + (LET f(p) == IF p[2] = j THEN feat[order[p[1]]] ELSE 0 IN SumOver(f, todo))
    = LET f(i) == feat[i] IN SumOver(f, Nb(j))
============================================================================
