---------------------------- MODULE SamplingMC ----------------------------
(* All runs of the sampling process on all small clouds.                     *)
EXTENDS Sampling
CONSTANTS XS, YS, NP, NB, RadX, RadY, Variant
ASSUME Variant \in {"ok", "onlySelf", "allBatches", "stopEarly", "firstRadius"}
VARIABLES pts, bids, rad, open, chosen, done
vars == << pts, bids, rad, open, chosen, done >>
Init == /\ pts \in [ 1..NP -> XS \X YS ]
        /\ bids \in { f \in [ 1..NP -> 0..(NB - 1) ] : \A i \in 1..(NP - 1) : f[i] <= f[i + 1] }
        /\ rad \in RadX \X RadY
        /\ open = 1..NP /\ chosen = <<>> /\ done = FALSE
Excluded(i) ==
  CASE Variant = "onlySelf" -> { i }
    [] Variant = "allBatches" -> { j \in 1..NP : Near(pts[j], pts[i], rad) }
    [] Variant = "firstRadius" -> { j \in 1..NP : bids[i] = bids[j] /\ Near(pts[j], pts[i], <<rad[1], rad[1]>>) }
    [] OTHER -> { j \in 1..NP : Excl(pts, bids, rad, i, j) }
Choose(i) == /\ ~done /\ i \in open
             /\ chosen' = Append(chosen, i)
             /\ open' = open \ Excluded(i)
             /\ UNCHANGED << pts, bids, rad, done >>
Stop == /\ ~done
        /\ open = {} \/ (Variant = "stopEarly" /\ chosen # <<>>)
        /\ done' = TRUE /\ UNCHANGED << pts, bids, rad, open, chosen >>
Next == Stop \/ \E i \in 1..NP : Choose(i)
Spec == Init /\ [][Next]_vars
Sep == Independent(pts, bids, rad, Range(chosen))
Distinct == Cardinality(Range(chosen)) = Len(chosen)
Cover == done => Dominating(pts, bids, rad, Range(chosen))
PerElement == done => \A i \in 1..NP : \E j \in Range(chosen) : bids[i] = bids[j]
============================================================================
