------------------------------- MODULE NetOps -------------------------------
(* Recorded values of the layers of a network: rows of scaled integers.       *)
EXTENDS Network

Tol == 4
SameRows(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
  Len(a[i]) = Len(b[i]) /\ \A k \in 1..Len(a[i]) : a[i][k] # NAN /\ Close(b[i][k], a[i][k], Tol)
ActRows(act, a) == [ i \in 1..Len(a) |-> [ k \in 1..Len(a[i]) |-> Activate(act, a[i][k]) ] ]
AddRows(a, b) == IF Len(a) # Len(b) THEN <<>>
                 ELSE [ i \in 1..Len(a) |-> [ k \in 1..Len(a[i]) |-> a[i][k] + b[i][k] ] ]

(* normalisation with gamma e.g, beta e.b, mean e.m and unit variance          *)
NormOk(r, e) == Len(e.inn) = Len(e.out) /\
  IF ~r.training
  THEN \A i \in 1..Len(e.inn), k \in 1..Len(e.g) :
         Close(e.out[i][k], e.g[k] * (e.inn[i][k] - r.scale * e.m[k]) + r.scale * e.b[k], Tol)
  ELSE \A k \in 1..Len(e.g) :
         LET f(i) == e.out[i][k] - r.scale * e.b[k]  n == Len(e.inn) IN
         /\ Abs(SumTo(f, n)) <= Tol * n
         /\ \A i \in 1..n, j \in 1..n : e.inn[i][k] > e.inn[j][k] + 8 =>
              (IF e.g[k] > 0 THEN e.out[i][k] >= e.out[j][k] - 1 ELSE e.out[i][k] <= e.out[j][k] + 1)
=============================================================================
