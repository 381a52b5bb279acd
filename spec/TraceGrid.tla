----------------------------- MODULE TraceGrid -----------------------------
(* Recorded executions of Grid, Neighborhood and compute_neighborhoods,     *)
(* judged by the definitions of GridSearch.                                  *)
EXTENDS GridSearch, TraceBase
VARIABLE l

Must(r, j) == MustNb(r.pts, r.bids, r.ctr[j], r.cbids[j], r.rad)
May(r, j) == MayNb(r.pts, r.bids, r.ctr[j], r.cbids[j], r.rad)
Between(lo, S, hi) == lo \subseteq S /\ S \subseteq hi

PairsOk(ps, np, nc) == \A k \in 1..Len(ps) :
  Len(ps[k]) = 2 /\ ps[k][1] \in 0..(np - 1) /\ ps[k][2] \in 0..(nc - 1)
Of(ps, j) == { ps[k][1] : k \in { m \in 1..Len(ps) : ps[m][2] = j - 1 } }
NumOf(ps, j) == Cardinality({ m \in 1..Len(ps) : ps[m][2] = j - 1 })

ExactSets(r, ps) == \A j \in 1..Len(r.ctr) : Between(Must(r, j), Of(ps, j), May(r, j))
NoDup(r, ps) == \A j \in 1..Len(r.ctr) : NumOf(ps, j) = Cardinality(Of(ps, j))

SearchClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE IF ~(PairsOk(r.ob, Len(r.pts), Len(r.ctr)) /\ PairsOk(r.ex, Len(r.pts), Len(r.ctr)))
  THEN << << "pairs", FALSE >> >>
  ELSE << << "raised", TRUE >>, << "pairs", TRUE >>,
          << "exact", ExactSets(r, r.ob) >>,
          << "once", NoDup(r, r.ob) >>,
          << "function_agrees", ExactSets(r, r.ex) /\ NoDup(r, r.ex) >>,
          << "symmetric",    \* a cloud searched in itself: i near j iff j near i
             r.own => \A j \in 1..Len(r.ctr), k \in 1..Len(r.ctr) :
               (r.order[k] \in Of(r.ob, j)) <=> (r.order[j] \in Of(r.ob, k)) >> >>

RangesOk(rg, ps, n) ==
  /\ Len(rg) = n
  /\ n > 0 => rg[n] = Len(ps)
  /\ \A j \in 1..n : LET lo == IF j = 1 THEN 0 ELSE rg[j - 1]
                     IN lo <= rg[j] /\ rg[j] <= Len(ps)
                        /\ \A k \in (lo + 1)..rg[j] : ps[k][2] = j - 1

(* The search without a grid *)
NoGridClauses(r) ==
  IF r.err # "" THEN << << "nogrid_raised", FALSE >> >>
  ELSE IF ~PairsOk(r.ob, Len(r.pts), Len(r.ctr)) THEN << << "nogrid_pairs", FALSE >> >>
  ELSE << << "nogrid_exact", \A j \in 1..Len(r.ctr) :
               Between(Must(r, j), Of(r.ob, j), May(r, j)) >>,
          << "nogrid_once", NoDup(r, r.ob) >>,
          << "nogrid_ranges", RangesOk(r.rg, r.ob, Len(r.ctr)) >> >>

(* Bookkeeping of a neighborhood *)
CapOk(r, ps) ==
  r.max > 0 => \A j \in 1..Len(r.ctr) :
    /\ NumOf(ps, j) >= Min2(r.max, Cardinality(Must(r, j)))
    /\ NumOf(ps, j) <= Min2(r.max, Cardinality(May(r, j)))
    /\ Of(ps, j) \subseteq May(r, j)
BookClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET np == Len(r.pts)  n == Len(r.ctr) IN
    IF ~(PairsOk(r.ob, np, n) /\ PairsOk(r.nb, np, n) /\ PairsOk(r.ex, np, n)
         /\ PairsOk(r.exs, np, n) /\ IsPerm(r.order, np))
    THEN << << "pairs", FALSE >> >>
    ELSE << << "ranges", RangesOk(r.rg, r.nb, n) >>,
            << "grouped", RangesOk(r.rg, r.ob, n) >>,
            << "original_ids", Len(r.nb) = Len(r.ob) /\ \A k \in 1..Len(r.nb) :
                 r.ob[k] = << r.order[r.nb[k][1] + 1], r.nb[k][2] >> >>,
            << "once", NoDup(r, r.ob) >>,
            << "cap", CapOk(r, r.ob) >>,
            << "all_without_cap", r.max = 0 => ExactSets(r, r.ob) >>,
            << "default_centers", r.own =>
                 /\ n = np
                 /\ \A j \in 1..n : r.ctr[j] = r.pts[r.order[j] + 1]
                                    /\ r.cbids[j] = r.bids[r.order[j] + 1] >>,
            << "function_ranges", RangesOk(r.exr, r.ex, n) >>,
            << "function_sorted_ids",      \* another search, maybe in another order
               LET m == TLCEval([ k \in 1..Len(r.exs) |-> << r.order[r.exs[k][1] + 1], r.exs[k][2] >> ])
               IN /\ Len(m) = Len(r.ex) /\ NoDup(r, m) /\ CapOk(r, m)
                  /\ r.max = 0 => { m[k] : k \in 1..Len(m) } = { r.ex[k] : k \in 1..Len(r.ex) } >>,
            << "function_cap", CapOk(r, r.ex) /\ (r.max = 0 => ExactSets(r, r.ex))
                               /\ NoDup(r, r.ex) >> >>

(* Grid: keys and order.  The box is the one of the cloud unless one is given *)
BoxOf(r) == IF r.gbox = <<>> THEN Boxes(r.pts, r.bids, r.bs)
            ELSE [ b \in 0..(r.bs - 1) |-> [ min |-> r.gbox[b + 1][1], max |-> r.gbox[b + 1][2] ] ]
GridClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET np == Len(r.pts)  box == BoxOf(r)  nc == NumCells(box, r.cell)
           ks == Keys(r.pts, r.bids, box, r.cell, nc) IN
    IF ~(Len(r.ckeys) = np /\ IsPerm(r.order, np) /\ Len(r.skeys) = np
         /\ Len(r.spts) = np /\ Len(r.sbids) = np)
    THEN << << "order_is_permutation", FALSE >> >>
    ELSE << << "num_cells", r.nc = nc >>,
            << "keys", \A i \in 1..np : r.ckeys[i] = ks[i] >>,
            << "op_keys", r.opkeys = ks >>,
            << "sorted_keys", \A k \in 1..np : r.skeys[k] = ks[r.order[k] + 1] >>,
            << "descending", Descending(r.skeys) >>,
            << "sorted_points", \A k \in 1..np : r.spts[k] = r.pts[r.order[k] + 1] >>,
            << "sorted_batch_ids", \A k \in 1..np : r.sbids[k] = r.bids[r.order[k] + 1] >>,
            << "cell_sizes", r.gcell = r.cell >>,
            << "batches_contiguous", \A k \in 1..(np - 1) : r.sbids[k] >= r.sbids[k + 1] >> >>

(* 2D data structure: ds[b][x][y] = << first, last >> *)
DSShape(ds, bs, nc) ==
  /\ Len(ds) = bs
  /\ \A b \in 1..bs : Len(ds[b]) = nc[1] /\ \A x \in 1..nc[1] :
       Len(ds[b][x]) = nc[2] /\ \A y \in 1..nc[2] : Len(ds[b][x][y]) = 2
DSClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET box == BoxOf(r)  nc == NumCells(box, r.cell)
           ks == Keys(r.pts, r.bids, box, r.cell, nc) IN
    IF ~(IsPerm(r.order, Len(r.pts)) /\ DSShape(r.ds, r.bs, nc))
    THEN << << "shape", FALSE >> >>
    ELSE LET sk == [ k \in 1..Len(r.order) |-> ks[r.order[k] + 1] ]
             cols == (1..r.bs) \X (1..nc[1]) \X (1..nc[2])
             at(c) == r.ds[c[1]][c[2]][c[3]]
         IN << << "ranges", \A c \in cols :
                    RangeRight(at(c), sk, nc, ColumnOf(c[1] - 1, c[2] - 1, c[3] - 1, nc)) >>,
               << "partition", \A k \in 1..Len(sk) :
                    Cardinality({ c \in cols : at(c)[1] < k /\ k <= at(c)[2] }) = 1 >>,
               << "cached", r.again = r.ds >> >>

(* Grids with more than 2^31 cells.  A key is recorded as its 2D column and   *)
(* the rest; both are small although the key itself is not.                   *)
HiOf(b, c, nc) == ColumnOf(b, c[1], c[2], nc)
LoOf(c, nc) == IF Len(nc) = 2 THEN 0
               ELSE Key(0, SubSeq(c, 3, Len(c)), SubSeq(nc, 3, Len(nc)))
WideKeys(r, box, nc) == TLCEval([ i \in 1..Len(r.pts) |->
  LET c == CellIdx(r.pts[i], box[r.bids[i]], r.cell, nc) IN << HiOf(r.bids[i], c, nc), LoOf(c, nc) >> ])
WideClauses(r) ==
  IF r.err # "" THEN << << "wide_raised", FALSE >> >>
  ELSE LET np == Len(r.pts)  box == BoxOf(r)  nc == NumCells(box, r.cell)
           ks == WideKeys(r, box, nc) IN
    IF ~(r.nc = nc /\ Len(r.ckeys) = np /\ IsPerm(r.order, np) /\ Len(r.skeys) = np
         /\ Len(r.spts) = np /\ Len(r.sbids) = np)
    THEN << << "wide_shape", FALSE >> >>
    ELSE << << "wide_keys", r.ckeys = ks >>,
            << "wide_sorted_keys", \A k \in 1..np : r.skeys[k] = ks[r.order[k] + 1] >>,
            << "wide_descending", \A k \in 1..(np - 1) :
                 \/ r.skeys[k][1] > r.skeys[k + 1][1]
                 \/ r.skeys[k][1] = r.skeys[k + 1][1] /\ r.skeys[k][2] >= r.skeys[k + 1][2] >>,
            << "wide_sorted_points", \A k \in 1..np : r.spts[k] = r.pts[r.order[k] + 1]
                 /\ r.sbids[k] = r.bids[r.order[k] + 1] >> >>
WideDsClauses(r) ==
  IF r.err # "" THEN << << "wide_ds_raised", FALSE >> >>
  ELSE LET box == BoxOf(r)  nc == NumCells(box, r.cell)
           ks == WideKeys(r, box, nc)  np == Len(r.pts) IN
    IF ~(IsPerm(r.order, np) /\ DSShape(r.ds, r.bs, nc))
    THEN << << "wide_ds_shape", FALSE >> >>
    ELSE LET hi == TLCEval([ k \in 1..np |-> ks[r.order[k] + 1][1] ])
             In(col) == { k \in 1..np : hi[k] = col }
         IN << << "wide_ranges", \A b \in 1..r.bs, x \in 1..nc[1], y \in 1..nc[2] :
                 LET S == In(ColumnOf(b - 1, x - 1, y - 1, nc))  at == r.ds[b][x][y] IN
                 IF S = {} THEN at[1] = at[2]
                 ELSE at = << SetMin(S) - 1, SetMax(S) >>
                      /\ SetMax(S) - SetMin(S) + 1 = Cardinality(S) >> >>

Clauses(r) == CASE r.kind = "search" -> SearchClauses(r)
                [] r.kind = "nogrid" -> NoGridClauses(r)
                [] r.kind = "book" -> BookClauses(r)
                [] r.kind = "grid" -> GridClauses(r)
                [] r.kind = "wide" -> WideClauses(r)
                [] r.kind = "wideds" -> WideDsClauses(r)
                [] r.kind = "ds" -> DSClauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
