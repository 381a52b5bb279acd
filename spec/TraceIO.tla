------------------------------ MODULE TraceIO ------------------------------
(* Recorded loads of files and batches of files.                             *)
EXTENDS IO, TraceBase
VARIABLE l

WidthF(r) == IF Len(r.files[1]) = 0 THEN 0 ELSE Len(r.files[1][1]) - r.dim

(* one file: r.files[1], limit r.max (-1: none); observations [shape, rows]    *)
FileClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET want == Limit(r.files[1], r.max)  w == Max2(WidthF(r), 0) IN
    << << "points", r.points.shape = << Len(want), r.dim >> /\ r.points.rows = PointsOf(want, r.dim) >>,
       << "features", r.feats.shape = << Len(want), w >> /\ r.feats.rows = FeaturesOf(want, r.dim) >>,
       << "type", r.dtype = r.wanttype >> >>

(* a batch: r.points, r.feats, r.sizes; the cloud made of it: r.cloud rows per *)
(* element                                                                     *)
ShapeOfBatch(r) == IF r.shape = <<>> THEN << Len(r.files) >> ELSE r.shape
BatchClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET v == MaxLen(r.files)  n == Len(r.files)  w == Max2(WidthF(r), 0)
           p == [ k \in 1..n |-> PointsOf(r.files[k], r.dim) ]
           q == [ k \in 1..n |-> FeaturesOf(r.files[k], r.dim) ]
       IN << << "points", r.points.shape = ShapeOfBatch(r) \o << v, r.dim >>
                          /\ r.points.rows = Batch(p, v, r.dim) >>,
             << "features", r.hasfeats =>
                 /\ r.feats.shape = ShapeOfBatch(r) \o << v, w >>
                 /\ r.feats.rows = Batch(q, v, w) >>,
             << "sizes", r.sizes.shape = ShapeOfBatch(r) /\ r.sizes.rows = SizesOf(r.files) >>,
             << "type", r.dtype = r.wanttype >>,
             << "cloud_of_the_batch", r.hascloud => r.cloud = p >>,
             << "features_of_the_cloud", r.hasfeats /\ w > 0 =>
                 r.cfeats = FoldSeqCat(q) >> >>

(* rejected calls                                                              *)
ErrorClauses(r) == << << "rejected_as_documented", r.got = r.want >> >>

Clauses(r) == CASE r.kind = "file" -> FileClauses(r)
                [] r.kind = "batch" -> BatchClauses(r)
                [] r.kind = "error" -> ErrorClauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
