------------------------------- MODULE Epoch -------------------------------
(* Epochs of a batch generator over n models with batches of b models, and   *)
(* the training loop which alternates training and validation epochs.        *)
EXTENDS Arith
Batches(n, b) == n \div b
(* The models of batch k (from 0) for an order of the models.                *)
BatchOf(order, b, k) == SubSeq(order, k * b + 1, Min2((k + 1) * b, Len(order)))
Orders(n) == { f \in [ 1..n -> 1..n ] : Range(f) = 1..n }
Distinct(s) == Cardinality(Range(s)) = Len(s)

(* What a consumer may observe in one epoch: "at" maps the delivered batch    *)
(* numbers to their models.                                                   *)
Disjoint(at) == \A i, j \in DOMAIN at : i # j => Range(at[i]) \cap Range(at[j]) = {}
Visited(at) == UNION { Range(at[i]) : i \in DOMAIN at }
EpochOk(at, n, b) ==
  /\ \A i \in DOMAIN at : Len(at[i]) = b /\ Distinct(at[i]) /\ Range(at[i]) \subseteq 1..n
  /\ Disjoint(at)
  /\ DOMAIN at = 0..(Batches(n, b) - 1) =>
       Cardinality(Visited(at)) = n - (n % b)
=============================================================================
