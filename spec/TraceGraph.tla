----------------------------- MODULE TraceGraph -----------------------------
(* Recorded histories of eager calls and traced functions, judged by the      *)
(* state machine GraphMC: which input an answer belongs to follows from where  *)
(* the object was built.                                                      *)
(*   r.objs[o]    = [home, v]  context the object was built in, its input      *)
(*   r.fresh[v][q]  answer of a new object built eagerly from input v          *)
(*   r.steps[k]   = [g, o, q, v, got, err]  question q to object o in context  *)
(*                  g, during a call with input v                             *)
(*   r.scene[v]   = [pts, bids]                                               *)
(* An answer is a list of values [kind, shape, vals].                         *)
EXTENDS Sampling, TraceBase
VARIABLE l

RowSet(v) == { v[k] : k \in 1..Len(v) }
(* Poisson samples of a scene: rows << batch id, coordinates >>                *)
Samples(rows, s, rad) ==
  LET n == Len(s.pts)  m == Len(rows)
      p(k) == Tail(rows[k])  b(k) == rows[k][1]
  IN /\ \A k \in 1..m : \E i \in 1..n : p(k) = s.pts[i] /\ b(k) = s.bids[i]
     /\ \A k \in 1..m, j \in 1..m : k # j => ~(b(k) = b(j) /\ Near(p(k), p(j), rad))
     /\ \A i \in 1..n : \E k \in 1..m : b(k) = s.bids[i] /\ MayNear(s.pts[i], p(k), rad)
Same(a, b, s, r) ==
  CASE a.kind = "exact" -> a.shape = b.shape /\ a.vals = b.vals
    [] a.kind = "set" -> a.shape = b.shape /\ RowSet(a.vals) = RowSet(b.vals)
    [] a.kind = "close" -> a.shape = b.shape /\ Len(a.vals) = Len(b.vals) /\
         \A k \in 1..Len(a.vals) : a.vals[k] = b.vals[k] \/ Close(a.vals[k], b.vals[k], r.tol)
    [] a.kind = "poisson" -> Samples(b.vals, s, r.rad)
SameAll(x, y, s, r) ==
  Len(x) = Len(y) /\ \A k \in 1..Len(x) : x[k].kind = y[k].kind /\ Same(x[k], y[k], s, r)

HistoryClauses(r) ==
  LET src(x) == IF r.objs[x.o].home = 0 THEN r.objs[x.o].v ELSE x.v
      (* the history is one of GraphMC: an object is only named where it exists *)
      visible(x) == r.objs[x.o].home \in { 0, x.g }
      ok(x) == SameAll(r.fresh[src(x)][x.q], x.got, r.scene[src(x)], r)
      ks == 1..Len(r.steps)
  IN << << "well_formed", \A k \in ks : visible(r.steps[k]) >>,
        << "raised", \A k \in ks : r.steps[k].err = "" >>,
        << "eager_answers", \A k \in ks : LET x == r.steps[k] IN
             x.err = "" /\ x.g = 0 => ok(x) >>,
        << "traced_answers", \A k \in ks : LET x == r.steps[k] IN
             x.err = "" /\ x.g # 0 /\ ~x.again => ok(x) >>,
        << "answers_of_later_calls", \A k \in ks : LET x == r.steps[k] IN
             x.err = "" /\ x.again => ok(x) >>,
        << "one_trace", \A k \in 1..Len(r.traces) : r.traces[k] = 1 >> >>

Clauses(r) == IF r.err # "" THEN << << "raised", FALSE >> >> ELSE HistoryClauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
