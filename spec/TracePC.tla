------------------------------ MODULE TracePC ------------------------------
(* Recorded histories of one PointCloud object.  Each step consumes one call *)
(* of a record; the batch shape in force is the state of the specification.  *)
EXTENDS PointCloud, TraceBase
VARIABLES l, k, shape, bad, seen
vars == << l, k, shape, bad, seen >>

Cloud(m) == CASE m.kind = "padded" -> FromPadded(m.rows, m.shape, m.v, m.sizes)
              [] m.kind = "sizes" -> FromSizes(m.pts, m.sizes)
              [] m.kind = "ids" -> FromIds(m.pts, m.bids, m.bs)
Shape0(m) == CASE m.kind = "padded" -> m.shape
               [] m.kind = "sizes" -> m.sshape
               [] m.kind = "ids" -> <<>>

ArrOk(a) == \A i \in 1..Len(a.shape) : a.shape[i] >= 0
Fails(e, names) == \E n \in Range(names) : e = n
AnyError(o) == o.err # ""

DiamOk(c, b, o) ==     \* o.e, o.one, o.inf, o.three: diameters, scaled
  LET w == Width(c, b)
      sq(d) == w[d] * w[d]    cu(d) == w[d] * w[d] * w[d]    id(d) == w[d]
      e2 == SumTo(sq, Len(w))
  IN /\ Close(o.e[b + 1], ISqrt(e2 * 4096), 2)                    \* scale 64
     /\ Close(o.one[b + 1], 64 * SumTo(id, Len(w)), 2)
     /\ Close(o.inf[b + 1], 64 * SetMax(Range(w)), 2)
     /\ LET t == o.three[b + 1]  x == SumTo(cu, Len(w)) * 512     \* scale 8
        IN t # NAN /\ t >= 0 /\ t <= 700
           /\ (IF t < 2 THEN 0 ELSE (t - 2) * (t - 2) * (t - 2)) <= x
           /\ x <= (t + 2) * (t + 2) * (t + 2)
BoxOk(c, s, o) ==
  LET eff == Eff(c, s)  ne == { b \in 0..(c.bs - 1) : Len(Rows(c, b)) > 0 } IN
  << << "box", Len(o.min) = c.bs /\ Len(o.max) = c.bs /\ \A b \in ne :
          /\ o.min[b + 1] = [ d \in 1..Len(c.pts[1]) |-> Ext(c, b, d)[1] ]
          /\ o.max[b + 1] = [ d \in 1..Len(c.pts[1]) |-> Ext(c, b, d)[2] ] >>,
     << "diameter_shape", o.dshape = eff >>,
     << "diameter", Len(o.e) = c.bs /\ Len(o.one) = c.bs /\ Len(o.inf) = c.bs
                    /\ Len(o.three) = c.bs /\ \A b \in ne : DiamOk(c, b, o) >> >>

(* clauses of one call; s is the shape in force before it                    *)
CallClauses(c, s, o) ==
  CASE o.op = "new" ->
         IF AnyError(o) THEN << << "new_raised", FALSE >> >>
         ELSE << << "new_points", o.pts = c.pts >>,
                 << "new_batch_ids", o.bids = c.bids >>,
                 << "new_batch_size", o.bs = c.bs >> >>
    [] o.op = "sizes" ->
         << << "sizes", ~AnyError(o) /\ ArrOk(o.res) /\ SizesOk(c, s, o.res) >> >>
    [] o.op = "points" ->
         << << "padded_points", ~AnyError(o) /\ Len(o.res.shape) > 2
                                /\ PaddedOk(c, s, c.pts, o.res, o.max) >> >>
    [] o.op = "unflatten" ->
         << << "unflatten", ~AnyError(o) /\ Len(o.res.shape) > 2
                            /\ PaddedOk(c, s, o.data, o.res, o.max) >> >>
    [] o.op = "element" ->
         IF o.id \in 0..(c.bs - 1)
         THEN << << "element", ~AnyError(o) /\ ElementOk(c, o.id, o.res) >> >>
         ELSE << << "id_out_of_range", o.err = "IndexError" >> >>
    [] o.op = "multi" ->
         << << "element_by_multi_index",
               ~AnyError(o) /\ ElementOk(c, FlatIndex(o.id, s), o.res) >> >>
    [] o.op = "features" ->
         IF o.padded = 1
         THEN << << "flatten_features", ~AnyError(o) /\ FlattenOk(c, o.v, o.rows, o.res) >> >>
         ELSE << << "flat_features_kept", ~AnyError(o) /\ o.res = o.rows >> >>
    [] o.op = "roundtrip" ->      \* unflatten then flatten gives the rows back
         << << "roundtrip", ~AnyError(o) /\ o.res = o.data >> >>
    [] o.op = "badfeatures" ->
         << << "wrong_feature_count_rejected", AnyError(o) >> >>
    [] o.op = "box" ->
         IF AnyError(o) THEN << << "box_raised", FALSE >> >> ELSE BoxOk(c, s, o)
    [] o.op = "set" ->
         IF o.shape = <<>> \/ ShapeFits(c, o.shape)
         THEN << << "shape_accepted", ~AnyError(o) >> >>
         ELSE << << "wrong_shape_rejected", AnyError(o) >> >>
NextShape(c, s, o) ==
  IF o.op # "set" THEN s
  ELSE IF o.shape = <<>> \/ ShapeFits(c, o.shape) THEN o.shape ELSE s

R == Trace[l]
Start == /\ l = 1 /\ k = 1 /\ bad = {} /\ seen = {}
         /\ shape = IF Len(Trace) = 0 \/ Trace[1].kind # "history" THEN <<>>
                    ELSE Shape0(Trace[1].make)
ShapeAt(i) == IF i > Len(Trace) \/ Trace[i].kind # "history" THEN <<>>
              ELSE Shape0(Trace[i].make)
Call == /\ l <= Len(Trace) /\ R.kind = "history" /\ k <= Len(R.ops)
        /\ LET c == Cloud(R.make)
               cs == CallClauses(c, shape, R.ops[k])
           IN /\ bad' = bad \cup Bad(cs)
              /\ seen' = seen \cup Range(Names(cs))
              /\ shape' = NextShape(c, shape, R.ops[k])
        /\ k' = k + 1 /\ UNCHANGED l
Finish == /\ l <= Len(Trace) /\ R.kind = "history" /\ k > Len(R.ops)
          /\ PrintT(ToJson([ i |-> l, bad |-> bad, checked |-> seen ]))
          /\ l' = l + 1 /\ k' = 1 /\ bad' = {} /\ seen' = {}
          /\ shape' = ShapeAt(l + 1)
(* invalid arguments: an error of the documented kind, nothing created       *)
RejectClauses(r) ==
  << << r.what, IF r.expect = <<>> THEN r.err # "" ELSE Fails(r.err, r.expect) >>,
     << "state_unchanged_after_rejection", r.before = r.after >> >>
Reject == /\ l <= Len(Trace) /\ R.kind = "reject"
          /\ Report(l, RejectClauses(R))
          /\ l' = l + 1 /\ shape' = ShapeAt(l + 1) /\ UNCHANGED << k, bad, seen >>
TraceSpec == Start /\ [][Call \/ Finish \/ Reject]_vars
=============================================================================
