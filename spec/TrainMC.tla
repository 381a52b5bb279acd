------------------------------ MODULE TrainMC ------------------------------
(* How gradients flow through a point convolution.  Center j collects          *)
(* w * relu(a * d + b) * feature(i) over its pairs (i, j), d the difference of  *)
(* their positions; the loss weighs the centers with up.  Back propagation      *)
(* visits the pairs in any order and accumulates.  When all are done, every     *)
(* gradient is the derivative of the loss.                                      *)
EXTENDS Arith, TLC
CONSTANTS N,          \* input points
          M,          \* centers
          Vals,       \* values plus one
          Variant     \* "ok" or a wrong design
ASSUME Variant \in {"ok", "overwrite", "noMask", "lastNeighbor", "detached"}
VARIABLES pos, ctr, near, feat, up,   \* the clouds and the weights of the loss
          w, a, b,                    \* parameters
          todo, gw, ga, gb, gf        \* pairs to visit, gradients
vars == << pos, ctr, near, feat, up, w, a, b, todo, gw, ga, gb, gf >>
V == { x - 1 : x \in Vals }
Relu(x) == Max2(x, 0)
Pre(aa, bb, i, j) == aa * (pos[i] - ctr[j]) + bb
Loss(ww, aa, bb, ff) ==
  LET f(p) == up[p[2]] * ww * Relu(Pre(aa, bb, p[1], p[2])) * ff[p[1]] IN SumOver(f, near)
Init ==
  /\ pos \in [ 1..N -> V ] /\ ctr \in [ 1..M -> V ]
  /\ near \in SUBSET ((1..N) \X (1..M))
  /\ feat \in [ 1..N -> V ] /\ up \in [ 1..M -> V ]
  /\ w \in V /\ a \in V /\ b \in V
  /\ todo = near /\ gw = 0 /\ ga = 0 /\ gb = 0 /\ gf = [ i \in 1..N |-> 0 ]
Visit == \E p \in todo :
  LET i == p[1]  j == p[2]  k == Relu(Pre(a, b, i, j))
      on == IF Variant = "detached" THEN 0
            ELSE IF Pre(a, b, i, j) > 0 \/ Variant = "noMask" THEN 1 ELSE 0
      g == up[j] * w * feat[i] * on
  IN /\ todo' = todo \ { p }
     /\ gw' = IF Variant = "overwrite" THEN up[j] * k * feat[i] ELSE gw + up[j] * k * feat[i]
     /\ gf' = [ gf EXCEPT ![i] = IF Variant = "lastNeighbor" THEN up[j] * w * k
                                 ELSE @ + up[j] * w * k ]
     /\ ga' = ga + g * (pos[i] - ctr[j])
     /\ gb' = gb + g
     /\ UNCHANGED << pos, ctr, near, feat, up, w, a, b >>
Spec == Init /\ [][Visit]_vars

(* The loss is linear in every single parameter as long as no unit changes     *)
(* between inactive and active.                                                *)
Same(a2, b2) == \A p \in near :
  LET x == Pre(a, b, p[1], p[2])  y == Pre(a2, b2, p[1], p[2]) IN (x > 0 /\ y > 0) \/ (x < 0 /\ y < 0)
Gradient == todo = {} =>
  /\ gw = Loss(w + 1, a, b, feat) - Loss(w, a, b, feat)
  /\ Same(a + 1, b) => ga = Loss(w, a + 1, b, feat) - Loss(w, a, b, feat)
  /\ Same(a, b + 1) => gb = Loss(w, a, b + 1, feat) - Loss(w, a, b, feat)
  /\ \A i \in 1..N : gf[i] = Loss(w, a, b, [ feat EXCEPT ![i] = @ + 1 ]) - Loss(w, a, b, feat)
Local == \A i \in 1..N : (\A j \in 1..M : << i, j >> \notin near) => gf[i] = 0
============================================================================
