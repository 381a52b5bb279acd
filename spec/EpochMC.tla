------------------------------ MODULE EpochMC ------------------------------
(* The generator as a state machine with nondeterministic shuffling, for all *)
(* numbers of models up to MaxN and all batch sizes, driven by its three     *)
(* interfaces: sequential calls, access by index, and iteration of a         *)
(* training loop which ends its epochs.                                      *)
EXTENDS Epoch, TLC
CONSTANTS MaxN, MaxEpochs, Variant
VARIABLES n, b, order, index, at, epoch, orders
vars == << n, b, order, index, at, epoch, orders >>
Len0 == IF Variant = "ceil" THEN CeilDiv(n, b) ELSE Batches(n, b)
Draw == IF Variant = "replacement" THEN [ 1..n -> 1..n ] ELSE Orders(n)
Batch(k) == IF Variant = "overlap" THEN SubSeq(order, k + 1, k + b)
            ELSE BatchOf(order, b, k)
Init == /\ n \in 1..MaxN /\ b \in 1..MaxN /\ b <= n
        /\ order \in Draw /\ index = 0 /\ at = << >> /\ epoch = 1
        /\ orders = { order }
Deliver(k) == at' = [ j \in DOMAIN at \cup { k } |-> IF j = k THEN Batch(k) ELSE at[j] ]
Call == /\ index < Len0 /\ Deliver(index) /\ index' = index + 1
        /\ UNCHANGED << n, b, order, epoch, orders >>
Get == /\ \E k \in 0..(Len0 - 1) : k \notin DOMAIN at /\ Deliver(k)
       /\ UNCHANGED << n, b, order, index, epoch, orders >>
End == /\ epoch < MaxEpochs /\ epoch' = epoch + 1
       /\ order' \in (IF Variant = "sameOrder" THEN { order } ELSE Draw)
       /\ orders' = orders \cup { order' }
       /\ index' = IF Variant = "noReset" THEN index ELSE 0
       /\ at' = << >> /\ UNCHANGED << n, b >>
Next == Call \/ Get \/ End
Spec == Init /\ [][Next]_vars
Epochs == EpochOk(at, n, b)
(* a new epoch can be delivered completely *)
Fresh == at = << >> => index = 0
(* sequential calls count the batches of the epoch *)
Counts == index <= Batches(n, b)
=============================================================================
