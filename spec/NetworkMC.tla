----------------------------- MODULE NetworkMC -----------------------------
(* The networks as machines on a toy: one feature per level, layers multiply  *)
(* by their weight, normalisation subtracts one.  The machine must compute    *)
(* the recursive definition, keep widths and levels in step, and be the chain *)
(* of projections when the bodies end in zero weights.                        *)
EXTENDS Network, TLC
CONSTANTS Kind, Blocks, Vals, Weights, Variant
VARIABLES x0, w, p, b, pc, val, skip, full, fine

Convs(k) == { i \in 1..Size(k) : Body(k)[i] # "bn" }
Init == /\ x0 \in Vals
        /\ w \in [ 1..Blocks -> [ Convs(Kind) -> Weights ] ]
        /\ p \in { 1, 2 }
        /\ b = 1 /\ pc = 1 /\ val = x0 /\ skip = x0
        /\ full = TRUE /\ fine = TRUE
Norm(x) == x - 1
Step == /\ b <= Blocks /\ pc <= Size(Kind)
        /\ LET op == Body(Kind)[pc] IN
           /\ val' = IF op = "bn" THEN Norm(val)
                     ELSE (IF Variant = "noAct" THEN val ELSE Activate("relu", val)) * w[b][pc]
           /\ skip' = IF Variant = "skipLate" /\ pc = 1 THEN Norm(val)
                      ELSE IF Variant = "skipOnce" /\ b > 1 THEN skip
                      ELSE IF pc = 1 THEN val ELSE skip
           /\ full' = CASE op = "down" -> FALSE [] op = "up" -> TRUE [] OTHER -> full
           /\ fine' = IF Kind = "spatial" /\ op = "conv" /\ pc # 4 THEN ~fine ELSE fine
        /\ pc' = pc + 1 /\ UNCHANGED << x0, w, p, b >>
Add == /\ b <= Blocks /\ pc = Size(Kind) + 1
       /\ val' = val + p * skip
       /\ b' = b + 1 /\ pc' = 1
       /\ UNCHANGED << x0, w, p, skip, full, fine >>
Next == Step \/ Add
vars == << x0, w, p, b, pc, val, skip, full, fine >>
Spec == Init /\ [][Next]_vars

RECURSIVE Run(_, _, _)
Run(i, k, x) == IF k > Size(Kind) THEN x
                ELSE Run(i, k + 1, IF Body(Kind)[k] = "bn" THEN Norm(x)
                                   ELSE Activate("relu", x) * w[i][k])
RECURSIVE Out(_)
Out(n) == IF n = 0 THEN x0 ELSE LET x == Out(n - 1) IN Run(n, 1, x) + p * x
Definition == b = Blocks + 1 => val = Out(Blocks)
InStep == b <= Blocks => /\ full = FullBefore(Kind, pc) /\ fine = FineBefore(Kind, pc)
BackHome == b = Blocks + 1 => full /\ fine
LastConv == Size(Kind)
ZeroBody == (b = Blocks + 1 /\ \A i \in 1..Blocks : w[i][LastConv] = 0) => val = x0 * p ^ Blocks
=============================================================================
