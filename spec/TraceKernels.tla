---------------------------- MODULE TraceKernels ----------------------------
(* Recorded kernel point templates and rotations.                            *)
EXTENDS Kernels, TraceBase
VARIABLE l

TemplateClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE << << "shape", r.shape = << r.n, 3 >> >>,
          << "center_first", \A d \in 1..3 : r.first[d] = 0 >>,
          << "inner_products", Matches(r.gram, r.n, r.num, r.den, 12) >> >>

(* points r.pts (integers), rotated r.out (scale 2^7), gram of r.out (2^14)    *)
RotationClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET n == Len(r.pts) IN
    IF Len(r.gram) # n THEN << << "shape", FALSE >> >>
    ELSE << << "distances", \A i \in 1..n, j \in 1..n :
                 Close(r.gram[i][j], One * Dot3(r.pts[i], r.pts[j]), 40) >>,
            << "orientation", \A i \in 1..n, j \in 1..n, k \in 1..n : i < j /\ j < k =>
                 LET d == Det3(r.pts[i], r.pts[j], r.pts[k]) IN
                 d # 0 => (d > 0) = (Det3(r.out[i], r.out[j], r.out[k]) > 0) >> >>
CubeClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE << << "grid", Len(r.pts) = r.n ^ 3 /\
             Range(r.pts) = { << a, b, c >> : a \in 0..(r.n - 1), b \in 0..(r.n - 1), c \in 0..(r.n - 1) } >> >>
(* several draws: r.draws, number of different results                         *)
DrawClauses(r) == << << "drawn_anew", r.err = "" /\ r.different > 1 >>,
                     << "fixed_without_rotation", r.err = "" /\ r.fixed = 1 >> >>
CustomClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE << << "three_quarters", r.out = [ i \in 1..Len(r.pts) |->
               [ d \in 1..Len(r.pts[i]) |-> 3 * r.pts[i][d] ] ] >> >>
ErrorClauses(r) == << << "rejected_as_documented", r.got = r.want >> >>

Clauses(r) == CASE r.kind = "template" -> TemplateClauses(r)
                [] r.kind = "rotation" -> RotationClauses(r)
                [] r.kind = "cube" -> CubeClauses(r)
                [] r.kind = "draws" -> DrawClauses(r)
                [] r.kind = "custom" -> CustomClauses(r)
                [] r.kind = "error" -> ErrorClauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
