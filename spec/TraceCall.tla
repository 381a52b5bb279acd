----------------------------- MODULE TraceCall ------------------------------
(* Calls with valid arguments raise no errors (calls outside of the recorded   *)
(* executions; those judge the errors themselves).                             *)
EXTENDS Arith, TraceBase, TLC
VARIABLE l

Clauses(r) == << << "raised", r.err = "" >> >>
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
