------------------------------ MODULE BlockMC ------------------------------
(* A residual block of the classification network as a machine on a toy: two  *)
(* points with one feature each; layers multiply by their weight, pooling     *)
(* takes the maximum, the convolution the sum of the points if the points      *)
(* change.  Both paths run step by step, in any interleaving.                  *)
EXTENDS Network, TLC
CONSTANTS Strided, Proj, Vals, Weights, Variant
VARIABLES x, w, a, b, ia, ib, done, y
vars == << x, w, a, b, ia, ib, done, y >>

P == Short(Strided, Proj)
Init == /\ x \in [ 1..2 -> Vals ]
        /\ w \in [ {"down", "conv", "up", "proj"} -> Weights ]
        /\ a = x /\ b = x /\ ia = 1 /\ ib = 1 /\ done = FALSE /\ y = <<>>
Norm(v) == [ i \in DOMAIN v |-> v[i] - 1 ]
Act(v) == [ i \in DOMAIN v |-> IF v[i] >= 0 THEN v[i] ELSE 0 ]
Mul(v, f) == [ i \in DOMAIN v |-> v[i] * f ]
Conv(v, f) == IF Strided THEN << (v[1] + v[2]) * f >> ELSE Mul(v, f)
Pool(v) == << Max2(v[1], v[2]) >>
Run(op, k, v) ==
  CASE op = "bn" -> Act(Norm(v))
    [] op = "one" -> Mul(v, w[IF k = 2 THEN "down" ELSE "up"])
    [] op = "conv" -> Conv(v, w["conv"])
StepA == /\ ia <= Len(Long) /\ ~done
         /\ a' = Run(Long[ia], ia, a)
         /\ ia' = ia + 1 /\ UNCHANGED << x, w, b, ib, done, y >>
Direct(op, v) ==
  CASE op = "pool" -> IF Variant = "poolLate" THEN << v[1] >> ELSE Pool(v)
    [] op = "bn" -> Act(Norm(v))
    [] op = "one" -> Mul(v, w["proj"])
StepB == /\ ib <= Len(P) /\ ~done
         /\ b' = Direct(P[ib], IF Variant = "skipAct" /\ ib = 1 THEN Act(Norm(b)) ELSE b)
         /\ ib' = ib + 1 /\ UNCHANGED << x, w, a, ia, done, y >>
Add == /\ ia > Len(Long) /\ ib > Len(P) /\ ~done
       /\ y' = [ i \in 1..Len(a) |->
                   (IF Variant = "noAdd" THEN 0 ELSE a[i])
                     + (IF Variant = "skipAct" /\ P = <<>> THEN Act(Norm(b))[i] ELSE b[i]) ]
       /\ done' = TRUE /\ UNCHANGED << x, w, a, b, ia, ib >>
Next == StepA \/ StepB \/ Add
Spec == Init /\ [][Next]_vars

Res(v) == Mul(Act(Norm(Conv(Act(Norm(Mul(Act(Norm(v)), w["down"]))), w["conv"]))), w["up"])
Skip(v) == LET p == IF Strided THEN Pool(v) ELSE v IN
           IF Proj THEN Mul(Act(Norm(p)), w["proj"]) ELSE p
Definition == done => \A i \in 1..Len(y) : y[i] = Res(x)[i] + Skip(x)[i]
AnyOrder == done => Len(y) = IF Strided THEN 1 ELSE 2
Identity == (done /\ ~Strided /\ ~Proj /\ w["up"] = 0) => y = x
=============================================================================
