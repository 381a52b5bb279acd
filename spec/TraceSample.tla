---------------------------- MODULE TraceSample ----------------------------
(* Recorded samplings and hierarchies.                                       *)
EXTENDS Sampling, TraceBase
VARIABLE l

----------------------------------------------------------------------------
(* Poisson disk sampling. r.ids: sampled ids in input order numbering        *)
IdsOk(ids, n) == \A k \in 1..Len(ids) : ids[k] \in 0..(n - 1)
MustExcl(r, i, j) == r.bids[i] = r.bids[j] /\ Near(r.pts[i], r.pts[j], r.rad)
MayExcl(r, i, j) == r.bids[i] = r.bids[j] /\ MayNear(r.pts[i], r.pts[j], r.rad)
PoissonClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE IF ~(IdsOk(r.ids, Len(r.pts)) /\ Len(r.spts) = Len(r.sbids))
  THEN << << "ids_in_range", FALSE >> >>
  ELSE LET S == { r.ids[k] + 1 : k \in 1..Len(r.ids) }  n == Len(r.pts) IN
    << << "ids_match_samples", Len(r.ids) = Len(r.spts) /\ \A k \in 1..Len(r.ids) :
            r.spts[k] = r.pts[r.ids[k] + 1] /\ r.sbids[k] = r.bids[r.ids[k] + 1] >>,
       << "distinct", Cardinality(S) = Len(r.ids) >>,
       << "separated", \A i \in S, j \in S : i # j => ~MustExcl(r, i, j) >>,
       << "covering", \A i \in 1..n : \E j \in S : MayExcl(r, i, j) >>,
       << "batch_size", r.sbs = r.bs >> >>
(* samples without ids: members of the cloud, same conditions                *)
PoissonNoIdClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET n == Len(r.pts)  m == Len(r.spts) IN
    IF Len(r.sbids) # m THEN << << "batch_ids", FALSE >> >>
    ELSE << << "members", \A k \in 1..m : \E i \in 1..n :
                 r.spts[k] = r.pts[i] /\ r.sbids[k] = r.bids[i] >>,
            << "separated", \A k \in 1..m, j \in 1..m : k # j =>
                 ~(r.sbids[k] = r.sbids[j] /\ Near(r.spts[k], r.spts[j], r.rad)) >>,
            << "covering", \A i \in 1..n : \E k \in 1..m :
                 r.bids[i] = r.sbids[k] /\ MayNear(r.pts[i], r.spts[k], r.rad) >>,
            << "batch_size", r.sbs = r.bs >> >>

----------------------------------------------------------------------------
(* Cell averages: coordinates recorded times r.scale                         *)
(* size, sums and batch elements of a group of points                          *)
GroupInfo(r, G) == [ n |-> Cardinality(G), bids |-> { r.bids[i] : i \in G },
  sum |-> TLCEval([ d \in 1..Len(r.pts[1]) |-> GroupSum(r.pts, G, d) ]) ]
MeanOk(g, p, scale) ==
  \A d \in 1..Len(p) : p[d] # NAN /\ Abs(p[d] * g.n - scale * g.sum[d]) <= g.n
AverageOf(r, box) ==
  LET ks == TLCEval(CellKeys(r.pts, r.bids, TLCEval(box), r.cell))
      gs == TLCEval({ GroupInfo(r, G) : G \in Groups(ks) })
      fits(k, g) == g.bids = { r.sbids[k] } /\ MeanOk(g, r.spts[k], r.scale)
  IN << << "one_per_cell", Len(r.spts) = Cardinality(Groups(ks)) /\ Len(r.sbids) = Len(r.spts) >>,
        << "mean_of_each_cell", Len(r.sbids) = Len(r.spts) /\
             \A g \in gs : \E k \in 1..Len(r.spts) : fits(k, g) >>,
        << "every_sample_a_mean", Len(r.sbids) = Len(r.spts) /\
             \A k \in 1..Len(r.spts) : \E g \in gs : fits(k, g) >>,
        << "id_of_each_cell", r.ids # <<>> => /\ Len(r.ids) = Len(r.spts) /\ IdsOk(r.ids, Len(r.pts))
             /\ \A k \in 1..Len(r.ids) : \E G \in Groups(ks) : (r.ids[k] + 1) \in G /\ fits(k, GroupInfo(r, G)) >>,
        << "batch_size", r.sbs = r.bs >> >>
AverageClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE AverageOf(r, Boxes(r.pts, r.bids, r.bs))

----------------------------------------------------------------------------
(* Hierarchy: r.levels[i] = [ pts, bids ], r.cells[i] the cell sizes of step i *)
Lev(r, i, mode) == [ pts |-> r.levels[i].pts, bids |-> r.levels[i].bids, bs |-> r.bs,
                     spts |-> r.levels[i + 1].pts, sbids |-> r.levels[i + 1].bids,
                     sbs |-> r.levels[i + 1].bs, rad |-> r.cells[i],
                     cell |-> r.cells[i], scale |-> 1, err |-> "", ids |-> <<>> ]
Sorted(a) == \A k \in 1..(Len(a) - 1) : a[k] <= a[k + 1]
NoNan(ps) == \A k \in 1..Len(ps) : \A d \in 1..Len(ps[k]) : ps[k][d] # NAN
Cnt(bids, b) == Cardinality({ i \in 1..Len(bids) : bids[i] = b })
PairSet(ps) == { ps[k] : k \in 1..Len(ps) }
(* neighborhood between level i and i+1: ids of level i, centers of level i+1 *)
RelOk(r, i, ps) ==
  LET a == r.levels[i]  b == r.levels[i + 1] IN
  /\ \A k \in 1..Len(ps) : Len(ps[k]) = 2 /\ ps[k][1] \in 0..(Len(a.pts) - 1)
                           /\ ps[k][2] \in 0..(Len(b.pts) - 1)
  /\ Cardinality(PairSet(ps)) = Len(ps)
  /\ \A j \in 1..Len(b.pts) :
       LET S == { p[1] : p \in { x \in PairSet(ps) : x[2] = j - 1 } } IN
       /\ MustNb(a.pts, a.bids, b.pts[j], b.bids[j], r.cells[i]) \subseteq S
       /\ S \subseteq MayNb(a.pts, a.bids, b.pts[j], b.bids[j], r.cells[i])
TransOk(r, i, ps, tr) == PairSet(tr) = { << p[2], p[1] >> : p \in PairSet(ps) }
                         /\ Len(tr) = Len(ps)
(* rows of batch element b of level L *)
ElemRows(L, b) == LET ix == SelectSeq([ k \in 1..Len(L.bids) |-> k ],
                                      LAMBDA k : L.bids[k] = b)
                  IN [ k \in 1..Len(ix) |-> L.pts[ix[k]] ]
PadOk(r, L, p, shape) ==
  /\ p.shape = shape /\ p.v = p.want /\ Len(p.rows) = r.bs * p.v
  /\ \A b \in 0..(r.bs - 1) :
       LET e == ElemRows(L, b) IN \A j \in 1..p.v : \A d \in 1..Len(p.rows[b * p.v + j]) :
         p.rows[b * p.v + j][d] = IF j <= Len(e) THEN e[j][d] ELSE 0
SzOk(r, L, z, shape) ==
  z.shape = shape /\ z.rows = [ b \in 1..r.bs |-> Cnt(L.bids, b - 1) ]
(* Reshaping the whole hierarchy: the shape in force is the state, and every *)
(* level is read with it.                                                    *)
Legal(r, s) == s = <<>> \/ ProdSeq(s) = r.bs
RECURSIVE InForce(_, _)     \* shape in force after the first k calls
InForce(r, k) == IF k = 0 THEN r.shape0
                 ELSE IF Legal(r, r.hist[k].shape) THEN r.hist[k].shape
                 ELSE InForce(r, k - 1)
HistOk(r, k) ==
  LET o == r.hist[k]  f == InForce(r, k)  n == Len(r.levels) IN
  /\ (o.seterr = "") <=> Legal(r, o.shape)
  /\ o.err # "unread" =>
       LET sh == IF f = <<>> THEN << r.bs >> ELSE f IN
       /\ o.err = ""
       /\ Len(o.sizes) = n /\ Len(o.padded) = n /\ Len(o.elem) = n
       /\ \A i \in 1..n : /\ SzOk(r, r.levels[i], o.sizes[i], sh)
                          /\ PadOk(r, r.levels[i], o.padded[i], sh)
                          /\ o.elem[i] = ElemRows(r.levels[i], o.eid)
       /\ f # <<>> => Len(o.melem) = n /\ \A i \in 1..n :
            o.melem[i] = ElemRows(r.levels[i], FlatIndex(o.multi, f))
Prod(s) == ProdSeq(s)
HierClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET n == Len(r.cells) IN
    IF Len(r.levels) # n + 1 \/ Len(r.nbs) # n \/ Len(r.tnbs) # n
       \/ \E i \in 1..(n + 1) : Len(r.levels[i].pts) # Len(r.levels[i].bids)
    THEN << << "levels", FALSE >> >>
    ELSE IF \E i \in 1..(n + 1) : ~NoNan(r.levels[i].pts)
    THEN << << "samples_on_the_lattice", FALSE >> >>
    ELSE LET box == Boxes(r.levels[1].pts, r.levels[1].bids, r.bs) IN
    << << "levels", r.len = n + 1 >>,
       << "first_level", r.levels[1].pts = r.pts /\ r.levels[1].bids = r.bids >>,
       << "cell_sizes", r.gcells = r.cells >>,
       << "each_level_samples_the_one_above", \A i \in 1..n :
            Bad(IF r.mode = "poisson" THEN PoissonNoIdClauses(Lev(r, i, r.mode))
                ELSE AverageOf(Lev(r, i, r.mode), box)) = {} >>,
       << "batch_size", \A i \in 1..(n + 1) : r.levels[i].bs = r.bs >>,
       << "batch_shape", \A i \in 1..(n + 1) : r.sizes[i].shape = r.shape /\
                              r.padded[i].shape = r.shape >>,
       << "sizes", \A i \in 1..(n + 1) : r.sizes[i].rows =
                      [ b \in 1..r.bs |-> Cnt(r.levels[i].bids, b - 1) ] >>,
       << "padded", \A i \in 1..(n + 1) :
            LET L == r.levels[i]  v == r.padded[i].v IN
            /\ v = r.padded[i].want
            /\ Len(r.padded[i].rows) = r.bs * v
            /\ \A b \in 0..(r.bs - 1) : \A d \in 1..Len(r.cells[1]) :
                 LET f(j) == r.padded[i].rows[b * v + j][d]
                     g(j) == IF L.bids[j] = b THEN L.pts[j][d] ELSE 0
                 IN SumTo(f, v) = SumTo(g, Len(L.pts)) >>,
       << "element", \A i \in 1..(n + 1) : r.elem[i] = ElemRows(r.levels[i], r.eid) >>,
       << "reshaped_as_a_whole", \A k \in 1..Len(r.hist) : HistOk(r, k) >>,
       << "each_neighborhood", \A k \in 1..Len(r.one) : LET o == r.one[k]
            i == IF o.i < 0 THEN n + o.i + 1 ELSE o.i + 1 IN
            o.nb = IF o.t = 1 THEN r.tnbs[i] ELSE r.nbs[i] >>,
       << "neighborhoods", \A i \in 1..n : RelOk(r, i, r.nbs[i]) >>,
       << "transposed", \A i \in 1..n : TransOk(r, i, r.nbs[i], r.tnbs[i]) >>,
       << "indexing", r.neg = r.nbs[n] /\ r.idx = r.levels[n].pts >> >>

Clauses(r) == CASE r.kind = "poisson" -> PoissonClauses(r)
                [] r.kind = "poissonNoId" -> PoissonNoIdClauses(r)
                [] r.kind = "average" -> AverageClauses(r)
                [] r.kind = "hierarchy" -> HierClauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
