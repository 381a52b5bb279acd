------------------------------ MODULE ParityMC ------------------------------
(* The CUDA Poisson disk sampling: one launch for each parity of the cells;   *)
(* the threads of a launch walk through the points of their own cell and take *)
(* a point when none of its neighbors is taken.  Reading the marks and        *)
(* setting one are separate steps of interleaving threads.                    *)
EXTENDS Arith, TLC
CONSTANTS XS, YS, NP, Cell, Rad, Variant
ASSUME Variant \in {"ok", "oneLaunch", "oneDimension", "laterOnly"}
VARIABLES pts, mark, launch, thr
vars == << pts, mark, launch, thr >>
CellOf(p) == << p[1] \div Cell, p[2] \div Cell >>
Near(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]) < Rad * Rad
Cells == { CellOf(pts[i]) : i \in 1..NP }
Points(c) == { i \in 1..NP : CellOf(pts[i]) = c }
Nb(i) == { j \in 1..NP : Near(pts[i], pts[j]) }
Launches == << << 0, 0 >>, << 1, 0 >>, << 0, 1 >>, << 1, 1 >> >>
Runs(c) == CASE Variant = "oneLaunch" -> launch = 1
             [] Variant = "oneDimension" -> launch <= 2 /\ c[1] % 2 = Launches[launch][1]
             [] OTHER -> << c[1] % 2, c[2] % 2 >> = Launches[launch]
(* a thread: the point it looks at (0: done), the neighbors it has not read,  *)
(* whether it has found none of them taken                                    *)
At(i) == [ p |-> i, left |-> IF Variant = "laterOnly" THEN { j \in Nb(i) : j < i } ELSE Nb(i),
           free |-> TRUE ]
Rest == [ p |-> 0, left |-> {}, free |-> FALSE ]
Start(c) == IF Runs(c) THEN At(SetMin(Points(c))) ELSE Rest
Key(c) == 16 * c[1] + c[2]
Init == /\ pts \in { f \in [ 1..NP -> XS \X YS ] :
                     \A i \in 1..(NP - 1) : Key(CellOf(f[i])) >= Key(CellOf(f[i + 1])) }
        /\ mark = {} /\ launch = 1
        /\ thr = [ c \in Cells |-> Start(c) ]
Read(c) == /\ thr[c].p # 0 /\ thr[c].left # {}
           /\ LET j == SetMin(thr[c].left) IN
              thr' = [ thr EXCEPT ![c] = [ @ EXCEPT !.left = @ \ { j },
                                                    !.free = @ /\ j \notin mark ] ]
           /\ UNCHANGED << pts, mark, launch >>
Mark(c) == /\ thr[c].p # 0 /\ thr[c].left = {}
           /\ mark' = (IF thr[c].free THEN mark \cup { thr[c].p } ELSE mark)
           /\ LET later == { i \in Points(c) : i > thr[c].p } IN
              thr' = [ thr EXCEPT ![c] = IF later = {} THEN Rest ELSE At(SetMin(later)) ]
           /\ UNCHANGED << pts, launch >>
Launch == /\ \A c \in Cells : thr[c].p = 0
          /\ launch < 4 /\ launch' = launch + 1
          /\ thr' = [ c \in Cells |-> LET l == launch + 1 IN
                      IF (CASE Variant = "oneLaunch" -> FALSE
                            [] Variant = "oneDimension" -> l <= 2 /\ c[1] % 2 = Launches[l][1]
                            [] OTHER -> << c[1] % 2, c[2] % 2 >> = Launches[l])
                      THEN At(SetMin(Points(c))) ELSE Rest ]
          /\ UNCHANGED << pts, mark >>
Next == Launch \/ \E c \in Cells : Read(c) \/ Mark(c)
Spec == Init /\ [][Next]_vars
Done == launch = 4 /\ \A c \in Cells : thr[c].p = 0
Separated == \A i \in mark, j \in mark : i # j => ~Near(pts[i], pts[j])
Covering == Done => \A i \in 1..NP : \E j \in mark : Near(pts[i], pts[j])
(* what a thread reads nobody sets in the same launch                         *)
RaceFree == \A c \in Cells, d \in Cells :
  (c # d /\ thr[c].p # 0 /\ thr[d].p # 0) => thr[d].p \notin Nb(thr[c].p)
============================================================================
