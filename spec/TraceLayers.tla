---------------------------- MODULE TraceLayers ----------------------------
(* Recorded layers, judged by their defining sums.                           *)
EXTENDS Layers, Density, TraceBase
VARIABLE l

CloudOf(bids, bs, vin) == [ bids |-> bids, bs |-> bs, vin |-> vin ]
InF(r) == Feats(r.frows, r.fv, r.bids)
OutC(r) == CloudOf(r.cbids, r.bs, r.ovin)
Good(x) == x # NAN
(* every output value satisfies P(j, k, value)                               *)
AllOut(o, c, w, P(_, _, _)) ==
  LET rows == TLCEval(OutRows(o, c)) IN
  \A j \in 1..Len(c.bids) : \A k \in 1..w : Good(rows[j][k]) /\ P(j, k, rows[j][k])
NbOfRec(r) == TLCEval([ j \in 1..Len(r.ctr) |->
  IF r.kde THEN NbOf(r.pts, r.bids, r.ctr[j], r.cbids[j], W(r.t, r.k2))
  ELSE { i + 1 : i \in Neighbors(r.pts, r.bids, r.ctr[j], r.cbids[j], r.rad) } ])

----------------------------------------------------------------------------
(* Global pooling: o.rows has one row per element                             *)
GlobalClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET f == TLCEval(InF(r))  w == Len(r.frows[1])
           c == CloudOf(r.bids, r.bs, 0)
           want == IF r.out.layout = "padded" THEN Append(Eff(c, r.shape), w) ELSE << r.bs, w >>
           E(b) == Range(Rows(c, b))
       IN << << "shape", r.out.shape = want /\ Len(r.out.rows) = r.bs >>,
             << "reduces_each_element", Len(r.out.rows) = r.bs /\
                \A b \in 0..(r.bs - 1) : E(b) # {} => \A k \in 1..w :
                LET x == r.out.rows[b + 1][k]  g(i) == f[i][k] IN
                Good(x) /\
                IF r.op = "max" THEN x = r.scale * MaxOver(g, E(b))
                ELSE Abs(x * Cardinality(E(b)) - r.scale * SumOver(g, E(b)))
                       <= Cardinality(E(b)) >> >>

(* Local pooling                                                              *)
LocalClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET f == TLCEval(InF(r))  w == Len(r.frows[1])  c == OutC(r)
           nb == NbOfRec(r)
           P(j, k, x) == LET g(i) == f[i][k]  n == Cardinality(nb[j]) IN
             nb[j] # {} => IF r.op = "max" THEN x = r.scale * MaxOver(g, nb[j])
                           ELSE Abs(x * n - r.scale * SumOver(g, nb[j])) <= n
           Q(j, k, x) == nb[j] = {} /\ r.op = "average" => x = 0
       IN IF ~LayoutOk(r.out, c, r.oshape, w) THEN << << "layout", FALSE >> >>
          ELSE << << "layout", TRUE >>,
                  << "pools_the_neighborhood", \A j \in 1..Len(c.bids) : \A k \in 1..w :
                       nb[j] # {} => LET x == OutRows(r.out, c)[j][k]
                                     IN Good(x) /\ P(j, k, x) >>,
                  << "empty_mean_is_zero", r.op = "average" => \A j \in 1..Len(c.bids) :
                       nb[j] = {} => \A k \in 1..w : OutRows(r.out, c)[j][k] = 0 >> >>

(* One by one convolution                                                     *)
OneClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET f == TLCEval(InF(r))  w == Len(r.w[1])
           c == CloudOf(r.bids, r.bs, r.vin)
           P(j, k, x) == x = ColDot(f[j], r.w, k) + r.b[k]
       IN IF ~LayoutOk(r.out, c, r.shape, w) THEN << << "layout", FALSE >> >>
          ELSE << << "layout", TRUE >>, << "linear_per_point", AllOut(r.out, c, w, P) >> >>

(* Basis projection: r.pairs[m] = (point, center), r.basis[m] one row per pair *)
(* r.gbasis, r.gfeat: the derivatives of the sum of the results, the one at    *)
(* center j, feature c and column h times Up(j, c, h)                          *)
ProjClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET nc == Len(r.ctr)  C == Len(r.frows[1])  H == r.h
           Up(j, cc, h) == ((r.up[1] * j + r.up[2] * cc + r.up[3] * h) % 19) - 9
           Of == TLCEval([ i \in 1..Len(r.pts) |->
             { m \in 1..Len(r.pairs) : r.pairs[m][1] = i - 1 } ]) IN
    IF \E m \in 1..Len(r.pairs) : r.pairs[m][1] \notin 0..(Len(r.pts) - 1)
                                  \/ r.pairs[m][2] \notin 0..(nc - 1)
    THEN << << "pairs", FALSE >> >>
    ELSE << << "shape", r.oshp = << nc, C, H >> >>,
            << "sum_of_products", r.oshp = << nc, C, H >> /\
                 \A j \in 1..nc : \A cc \in 1..C, h \in 1..H :
                 LET S == { m \in 1..Len(r.pairs) : r.pairs[m][2] = j - 1 }
                     g(m) == r.basis[m][h] * r.frows[r.pairs[m][1] + 1][cc]
                 IN r.res[j][cc][h] = SumOver(g, S) >>,
            << "derivative_in_basis", r.gshp[1] = << Len(r.pairs), H >> /\
                 \A m \in 1..Len(r.pairs), h \in 1..H :
                 LET g(cc) == r.frows[r.pairs[m][1] + 1][cc] * Up(r.pairs[m][2], cc - 1, h - 1)
                 IN r.gbasis[m][h] = SumTo(g, C) >>,
            << "derivative_in_features", r.gshp[2] = << Len(r.pts), C >> /\
                 \A i \in 1..Len(r.pts), cc \in 1..C :
                 LET row(m) == LET g(h) == r.basis[m][h] * Up(r.pairs[m][2], cc - 1, h - 1)
                               IN SumTo(g, H)
                 IN r.gfeat[i][cc] = SumOver(row, Of[i]) >>,
            << "complete", \A j \in 1..nc :
                 { r.pairs[m][1] + 1 : m \in { x \in 1..Len(r.pairs) : r.pairs[x][2] = j - 1 } }
                   = NbOfRec(r)[j] >> >>

----------------------------------------------------------------------------
(* Inverse densities of the pairs (i, j), scaled by r.iscale                   *)
Den(r) == IF r.kde THEN TLCEval(Densities(r.pts, r.bids, r.t, r.k2)) ELSE <<>>
PairIdx(r) == TLCEval([ j \in 1..Len(r.ctr) |->
  [ i \in 1..Len(r.pts) |->
      LET S == { m \in 1..Len(r.pairs) : r.pairs[m] = << i - 1, j - 1 >> }
      IN IF S = {} THEN 0 ELSE SetMin(S) ] ])
PairsRight(r, nb) == \A j \in 1..Len(r.ctr) :
  { r.pairs[m][1] + 1 : m \in { x \in 1..Len(r.pairs) : r.pairs[x][2] = j - 1 } } = nb[j]

(* Monte Carlo convolution                                                    *)
McClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET f == TLCEval(InF(r))  c == OutC(r)  nb == NbOfRec(r)
           den == Den(r)  idx == PairIdx(r)
           K == Len(r.ws)  H == Len(r.bs_[1][Len(r.bs_[1])])  C == Len(r.frows[1])
           O == Len(r.wf[1][1])  w == K * O  L == Len(r.ws[1])
           inv(i, j) == IF r.kde THEN 1073741824 \div den[i]        \* 2^10 / density
                        ELSE r.inv[idx[j][i]]
           hid == TLCEval([ j \in 1..Len(r.ctr) |-> [ i \in nb[j] |-> [ m \in 1..K |->
                    Mlp(r.act, r.ws[m], r.bs_[m], Diff(r.pts[i], r.ctr[j]), L) ] ] ])
           coef(j, i, m, o) == LET g(x) == LET cc == (x - 1) \div H  h == (x - 1) % H IN
                                 r.wf[m][x][o] * hid[j][i][m][h + 1] * f[i][cc + 1]
                               IN SumTo(g, C * H)
           val(j, m, o) == LET g(i) == inv(i, j) * coef(j, i, m, o) IN SumOver(g, nb[j])
           tol(j, m, o) == LET g(i) == Abs(coef(j, i, m, o)) IN
                           IF r.kde THEN 2 + 2 * SumOver(g, nb[j])
                           ELSE IF r.act = "elu" THEN 4 + (4 * SumOver(g, nb[j])) \div 65536 ELSE 0
           P(j, k, x) == LET m == ((k - 1) \div O) + 1  o == ((k - 1) % O) + 1
                         IN Abs(x - val(j, m, o)) <= tol(j, m, o)
           Z(j, k, x) == nb[j] = {} => x = 0
       IN IF ~LayoutOk(r.out, c, r.oshape, w) THEN << << "layout", FALSE >> >>
          ELSE IF ~r.kde /\ ~PairsRight(r, nb) THEN << << "pairs", FALSE >> >>
          ELSE << << "layout", TRUE >>, << "defining_sum", AllOut(r.out, c, w, P) >>,
                  << "empty_is_zero", AllOut(r.out, c, w, Z) >> >>

(* PointConv: densities relative to the largest of the neighborhood, then the  *)
(* transform T(x) = sum_k relu(x a_k + b_k) c_k + d                            *)
RelBits == 12
Rel(p, mx) == LET sh == IF mx >= 2 ^ 24 THEN 2 ^ 10 ELSE IF mx >= 2 ^ 18 THEN 2 ^ 6 ELSE 1
              IN ((p \div sh) * Pow2(RelBits)) \div (mx \div sh)
Transform(x, a, b, cs, d) ==
  LET g(k) == Max2(0, x * a[k] + Pow2(RelBits) * b[k]) * cs[k]
  IN SumTo(g, Len(a)) + Pow2(RelBits) * d
PcvClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET f == TLCEval(InF(r))  c == OutC(r)  nb == NbOfRec(r)
           den == Den(r)  idx == PairIdx(r)
           H == Len(r.b1)  C == Len(r.frows[1])  O == Len(r.wf[1])
           pd(i, j) == IF r.kde THEN den[i] ELSE r.inv[idx[j][i]]
           mx(j) == SetMax({ pd(i, j) : i \in nb[j] })
           iv == TLCEval([ j \in 1..Len(r.ctr) |-> [ i \in nb[j] |->
                    Pow2(RelBits + 10) \div Transform(Rel(pd(i, j), mx(j)), r.pa, r.pb, r.pc, r.pd) ] ])
           hid == TLCEval([ j \in 1..Len(r.ctr) |-> [ i \in nb[j] |->
                    Mlp(r.act, << r.w1 >>, << r.b1 >>, Diff(r.pts[i], r.ctr[j]), 1) ] ])
           coef(j, i, o) == LET g(x) == LET cc == (x - 1) \div H  h == (x - 1) % H IN
                              r.wf[x][o] * hid[j][i][h + 1] * f[i][cc + 1]
                            IN SumTo(g, C * H)
           val(j, o) == LET g(i) == iv[j][i] * coef(j, i, o) IN SumOver(g, nb[j])
           tol(j, o) == LET g(i) == Abs(coef(j, i, o)) * (IF r.kde THEN 2 + iv[j][i] \div 64 ELSE 2)
                        IN 2 + SumOver(g, nb[j])
           P(j, k, x) == Abs(x - val(j, k)) <= tol(j, k)
           Z(j, k, x) == nb[j] = {} => x = 0
       IN IF ~LayoutOk(r.out, c, r.oshape, O) THEN << << "layout", FALSE >> >>
          ELSE IF ~r.kde /\ ~PairsRight(r, nb) THEN << << "pairs", FALSE >> >>
          ELSE << << "layout", TRUE >>, << "defining_sum", AllOut(r.out, c, O, P) >>,
                  << "empty_is_zero", AllOut(r.out, c, O, Z) >> >>

(* Kernel point convolution.  Kernel points and offsets in lattice units        *)
KpOffsets(r, f, nb) ==           \* one K x D matrix per center
  LET K == Len(r.kp)  D == Len(r.kp[1])  C == Len(r.frows[1])
      x(j, k, d) ==
        LET g(i) == LET h(y) == LET cc == (y - 1) \div K  kk == ((y - 1) % K) + 1 IN
                                 Corr(r.corr, Norm2(Diff(Diff(r.pts[i], r.ctr[j]), r.kp[kk])), r.sn, r.sd)
                                   * f[i][cc + 1] * r.woff[y][(k - 1) * D + d]
                    IN SumTo(h, C * K)
        IN SumOver(g, nb[j])
  IN [ j \in 1..Len(r.ctr) |-> [ k \in 1..K |-> [ d \in 1..D |->
         (x(j, k, d) + Pow2(CorrBits - 1)) \div Pow2(CorrBits) ] ] ]
Shifted(r, off, j, k) == [ d \in 1..Len(r.kp[1]) |->
                             r.kp[k][d] + (IF off = <<>> THEN 0 ELSE off[j][k][d]) ]
KpClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE LET f == TLCEval(InF(r))  c == OutC(r)  nb == NbOfRec(r)
           K == Len(r.kp)  C == Len(r.frows[1])  O == Len(r.wf[1])
           off == IF r.deform THEN TLCEval(KpOffsets(r, f, nb)) ELSE <<>>
           cor == TLCEval([ j \in 1..Len(r.ctr) |-> [ i \in nb[j] |-> [ k \in 1..K |->
                    Corr(r.corr, Norm2(Diff(Diff(r.pts[i], r.ctr[j]), Shifted(r, off, j, k))),
                         r.sn, r.sd) ] ] ])
           val(j, o) == LET g(i) == LET h(y) == LET cc == (y - 1) \div K  kk == ((y - 1) % K) + 1
                                      IN r.wf[y][o] * cor[j][i][kk] * f[i][cc + 1]
                                    IN SumTo(h, C * K)
                        IN SumOver(g, nb[j])
           tol(j, o) == LET g(i) == LET h(y) == LET cc == (y - 1) \div K
                                      IN Abs(r.wf[y][o] * f[i][cc + 1])
                                    IN SumTo(h, C * K)
                        IN 2 + 2 * SumOver(g, nb[j])
           P(j, k, x) == Abs(x - val(j, k)) <= tol(j, k)
           Z(j, k, x) == nb[j] = {} => x = 0
           \* regularisation
           \* (a center without neighbors has nothing to fit)
           fit == LET g(j) == LET h(k) == IF nb[j] = {} THEN 0 ELSE SetMin({ Norm2(Diff(Diff(r.pts[i], r.ctr[j]),
                                                       Shifted(r, off, j, k))) : i \in nb[j] })
                              IN SumTo(h, K)
                  IN SumTo(g, Len(r.ctr))
           rep == LET g(j) == LET h(kl) == IF kl[1] = kl[2] THEN 0 ELSE
                                  Corr(r.corr, Norm2(Diff(Shifted(r, off, j, kl[1]),
                                                          Shifted(r, off, j, kl[2]))), r.sn, r.sd)
                              IN SumOver(h, (1..K) \X (1..K))
                  IN SumTo(g, Len(r.ctr))
           \* sigma^2 = sn^2 / sd^2 (linear); Gaussian: sigma^2 = 9 / (sn ln 2), 1/sigma^2 = sn * r.g / 2^16
           lin == r.corr = "linear"
           \* scaled by 2^11; the Gaussian factor ln 2 / 9 is 5047 / 2^16
           want == (IF lin THEN ((fit * r.sd * r.sd) * Pow2(CorrBits)) \div (r.sn * r.sn)
                    ELSE (fit * r.sn * 5047) \div 32) + rep
           rtol == 2 + 2 * K * K * Len(r.ctr) + want \div 4096
       IN IF r.kind = "kpreg"
          THEN << << "regularisation", Good(r.reg) /\ Abs(r.reg - want) <= rtol >> >>
          ELSE IF ~LayoutOk(r.out, c, r.oshape, O) THEN << << "layout", FALSE >> >>
          ELSE << << "layout", TRUE >>, << "defining_sum", AllOut(r.out, c, O, P) >>,
                  << "empty_is_zero", AllOut(r.out, c, O, Z) >> >>

(* Two ways of calling the same layer give the same values                     *)
SameClauses(r) ==
  IF r.err # "" THEN << << "raised", FALSE >> >>
  ELSE << << "given_neighborhood_and_own_agree", Len(r.a) = Len(r.b) /\ \A j \in 1..Len(r.a) :
             Len(r.a[j]) = Len(r.b[j]) /\
             \A k \in 1..Len(r.a[j]) : Close(r.a[j][k], r.b[j][k], 2) /\ Good(r.b[j][k]) >> >>

Clauses(r) == CASE r.kind = "global" -> GlobalClauses(r)
                [] r.kind = "local" -> LocalClauses(r)
                [] r.kind = "one" -> OneClauses(r)
                [] r.kind = "proj" -> ProjClauses(r)
                [] r.kind = "mc" -> McClauses(r)
                [] r.kind = "pointconv" -> PcvClauses(r)
                [] r.kind \in { "kp", "kpreg" } -> KpClauses(r)
                [] r.kind = "same" -> SameClauses(r)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Clauses(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
