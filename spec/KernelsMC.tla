----------------------------- MODULE KernelsMC -----------------------------
(* Rotations as composed quarter turns: they keep inner products and          *)
(* orientation.  The template tables are consistent: the points of a class    *)
(* are balanced around the center.                                            *)
EXTENDS Kernels, TLC
CONSTANTS Pts, Variant
VARIABLES p0, p, steps
Lattice == [ 1..3 -> [ 1..3 -> { 0, 1, Pts } ] ]
Turn(ax, v) ==
  CASE ax = 1 -> << v[1], -v[3], v[2] >>
    [] ax = 2 -> << v[3], v[2], -v[1] >>
    [] ax = 3 -> IF Variant = "mirror" THEN << v[2], v[1], v[3] >>
                 ELSE IF Variant = "shear" THEN << v[1] + v[2], v[2], v[3] >>
                 ELSE << -v[2], v[1], v[3] >>
Init == p0 \in Lattice /\ p = p0 /\ steps = 0
Next == /\ steps < 3
        /\ \E ax \in 1..3 : p' = [ i \in 1..3 |->
             IF Variant = "firstOnly" /\ i > 1 THEN p[i] ELSE Turn(ax, p[i]) ]
        /\ steps' = steps + 1 /\ p0' = p0
vars == << p0, p, steps >>
Spec == Init /\ [][Next]_vars
Gram == \A i \in 1..3, j \in 1..3 : Dot3(p[i], p[j]) = Dot3(p0[i], p0[j])
Orientation == Det3(p[1], p[2], p[3]) = Det3(p0[1], p0[2], p0[3])
Balanced == \A n \in Templates : \A c \in Template(n) :
  /\ Len(c[2]) = n - 1
  /\ Abs(SumSeq(c[2])) <= 10
Sizes == \A n \in Templates :
  LET f(c) == c[1] IN SumOver(f, Template(n)) = n - 1
=============================================================================
