----------------------------- MODULE TraceTrain -----------------------------
(* Recorded derivatives.  For an entry of a variable, w.q holds the difference *)
(* quotients of the loss to the left and to the right, for steps of falling    *)
(* size, and w.g what back propagation returned.  Between its kinks the loss   *)
(* is smooth, at a kink every value between the two one sided derivatives is   *)
(* a derivative: the gradient lies between the two quotients of some step.     *)
(* All values are scaled by r.scale over the largest of them.                  *)
EXTENDS Arith, TraceBase, TLC
VARIABLE l

Between(g, a, b, tol) == /\ a # NAN /\ b # NAN /\ g # NAN
                         /\ Min2(a, b) - tol <= g /\ g <= Max2(a, b) + tol
IsDerivative(w, r) ==
  \E k \in 1..r.steps : Between(w.g, w.q[2 * k - 1], w.q[2 * k], r.scale \div 50)
Clauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE << << "all_weights_are_trained", r.fixed = 0 >>,
          << "all_inputs_have_gradients", r.none = <<>> >>,
          << "finite", \A k \in 1..Len(r.wants) : r.wants[k].g # NAN >>,
          << "derivative", \A k \in 1..Len(r.wants) : IsDerivative(r.wants[k], r) >> >>
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
