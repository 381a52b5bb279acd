------------------------------ MODULE TraceGpu ------------------------------
(* Recorded launches of the CUDA kernels: what their threads did to words of  *)
(* memory which several of them used.  An access is                           *)
(*   << thread, block, number of barriers before it, kind >>,                 *)
(* kind 0: read, 1: write, 2: atomic update.                                  *)
EXTENDS Integers, TraceBase
VARIABLE l
Ordered(a, b) == \/ a[1] = b[1]                       \* one thread
                 \/ a[2] = b[2] /\ a[3] # b[3]        \* a barrier between them
Compatible(a, b) == \/ a[4] = 0 /\ b[4] = 0
                    \/ a[4] = 2 /\ b[4] = 2
RaceFree(acc) == \A i \in 1..Len(acc), j \in 1..Len(acc) :
  i < j => Ordered(acc[i], acc[j]) \/ Compatible(acc[i], acc[j])
AccOk(acc, grid, block) == \A i \in 1..Len(acc) :
  /\ acc[i][2] \in 0..(grid - 1) /\ acc[i][4] \in 0..2
  /\ acc[i][1] \div block = acc[i][2]
Launch(x) ==
  /\ x.grid >= 1 /\ x.block >= 1 /\ x.block <= 1024
  /\ \A w \in 1..Len(x.words) : AccOk(x.words[w].acc, x.grid, x.block)
OpClauses(r) ==
  << << "completes", r.error = "" >>,
     << "stays_in_its_memory", r.faults = <<>> >>,
     << "launches", \A k \in 1..Len(r.launches) : Launch(r.launches[k]) >>,
     << "race_free", \A k \in 1..Len(r.launches) : \A w \in 1..Len(r.launches[k].words) :
          RaceFree(r.launches[k].words[w].acc) >>,
     << "no_conflicts_seen", \A k \in 1..Len(r.launches) : r.launches[k].conflicts = 0 >> >>
(* inputs without points or neighbors                                         *)
EmptyClauses(r) ==
  << << "empty_completes", r.err = "" >>,
     << "empty_shape", r.err = "" => r.shape = r.want >>,
     << "empty_zero", r.err = "" => \A k \in 1..Len(r.vals) : r.vals[k] = 0 >> >>
(* the same call under several schedules                                      *)
Close(a, b, tol) == a - b <= tol /\ b - a <= tol
SameClauses(r) ==
  << << "schedules_complete", r.err = "" >>,
     << "schedules_agree", r.err = "" => \A k \in 1..Len(r.runs) :
          /\ Len(r.runs[k]) = Len(r.runs[1])
          /\ \A j \in 1..Len(r.runs[1]) : Close(r.runs[k][j], r.runs[1][j], r.tol) >> >>
(* inputs an operation has to refuse                                          *)
RefuseClauses(r) == << << "refused", r.refused >>, << "no_crash", ~r.crashed >> >>
(* a limited search asked again and again: which neighbors are kept is drawn   *)
DrawClauses(r) ==
  IF r.err # "" THEN << << "draw_completes", FALSE >> >>
  ELSE LET Kept(k) == { r.runs[k][j] : j \in 1..Len(r.runs[k]) }
           near == { r.near[j] : j \in 1..Len(r.near) } IN
    << << "draw_of_neighbors", \A k \in 1..Len(r.runs) : /\ Len(r.runs[k]) = r.cap
            /\ Cardinality(Kept(k)) = r.cap /\ Kept(k) \subseteq near >>,
       << "any_can_go", \A p \in near : \E k \in 1..Len(r.runs) : p \notin Kept(k) >>,
       << "any_can_stay", \A p \in near : \E k \in 1..Len(r.runs) : p \in Kept(k) >> >>
Clauses(r) == CASE r.kind = "draw" -> DrawClauses(r)
                [] r.kind = "op" -> OpClauses(r)
                [] r.kind = "empty" -> EmptyClauses(r)
                [] r.kind = "schedules" -> SameClauses(r)
                [] r.kind = "refuse" -> RefuseClauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
