------------------------------ MODULE B03Trace ------------------------------
(* B03: recorded size distributions.                                           *)
EXTENDS Rays, TraceDriver
Marked(e) == TLCEval([i \in DOMAIN e.v |-> IF e.upper THEN FLe(e.v[i], e.xth) ELSE FLe(e.xth, e.v[i])])
B03Begin(s) == 0
B03After(t, e) == t
Count(x, it) == FRint(FMul(x, it))        \* rays in a bin from the returned fraction
IsCount(x, it) == FLe(0, x) /\ FNear(FMul(x, it), Count(x, it), 0, FLit("1e-6"))
\* six standard deviations of a binomial count, plus half a percent
Slack(it) == FAdd(FMul(3, FSqrt(it)), FMul(FLit("0.005"), it))
Scales(e) == \A i \in DOMAIN e.r : FNear(e.r[i], FDiv(FMul(i - 1, e.boxsize), e.shape[1]), FLit("1e-12"), 0)
\* expected weights for the start cells of the event: a list of cells, equally likely
Expect(e, reg, dirs) ==
  LET m == MaxBin(e.shape)
      T[n \in 0..Len(e.starts)] == IF n = 0 THEN [lo |-> [b \in 0..m |-> 0], hi |-> [b \in 0..m |-> 0]]
         ELSE LET q == T[n - 1]  t == Tally(e.shape, reg, e.starts[n], dirs, m)
              IN [lo |-> [b \in 0..m |-> q.lo[b] + t.lo[b]], hi |-> [b \in 0..m |-> q.hi[b] + t.hi[b]]]
  IN T[Len(e.starts)]
Weights(e) == IF Len(e.shape) = 2 THEN 360 ELSE LET k == 360 \div e.degstep IN k * k
Bins(e, reg, counts, first) ==   \* counts[i] rays ended in bin i-1, observed from bin `first` on
  LET dirs == IF Len(e.shape) = 2 THEN Dirs2 ELSE Dirs3(e.degstep)
      ex == Expect(e, reg, dirs)
      tot == Weights(e) * Len(e.starts)
      m == MaxBin(e.shape)
      fine == Len(e.shape) = 2 \/ e.degstep = 1
      ob(b) == IF b + 1 \in DOMAIN counts THEN counts[b + 1] ELSE 0
      extra == IF fine THEN 0 ELSE FMul(FLit("0.02"), e.it)
      wrong == {b \in first..m :
                \/ fine /\ ex.hi[b] = 0 /\ ob(b) > 0
                \/ FLt(FAdd(FAdd(FDiv(FMul(ex.hi[b], e.it), tot), Slack(e.it)), extra), ob(b))
                \/ FLt(ob(b), FSub(FSub(FDiv(FMul(ex.lo[b], e.it), tot), Slack(e.it)), extra))}
  IN IF wrong = {} THEN {} ELSE {"ray_in_the_bin_where_the_region_ends"}
Uniq(f) == {f[i] : i \in DOMAIN f}
Mfp(e) ==  \* mfp_from_point: fraction per bin; mfp: r dP/dr, i.e. fraction times pixel radius
  LET reg == Marked(e)  empty == \A i \in DOMAIN reg : ~ reg[i] IN
  IF e.op = "mfp_from_point" /\ ~ empty /\ ~ reg[e.at]
  THEN (IF e.exc = "" /\ e.none THEN {} ELSE {"point_outside_refused"})
  ELSE IF e.exc # "" \/ e.none THEN {"no_exception"}
  ELSE IF Len(e.r) # Len(e.p) THEN {"one_value_per_radius"}
  ELSE IF empty THEN Broken([empty_region_all_zero |-> \A i \in DOMAIN e.p : FEq(e.p[i], 0), radii_scale |-> Scales(e)])
  ELSE LET frac == TLCEval([i \in DOMAIN e.p |-> IF e.op = "mfp_from_point" THEN e.p[i] ELSE IF i = 1 THEN F(0) ELSE FDiv(e.p[i], i - 1)])
           ok == \A i \in DOMAIN frac : IsCount(frac[i], e.it)
           counts == TLCEval([i \in DOMAIN frac |-> Count(frac[i], e.it)])
           total == LET S[i \in 0..Len(counts)] == IF i = 0 THEN 0 ELSE S[i - 1] + counts[i] IN S[Len(counts)]
       IN IF ~ ok THEN {"whole_number_of_rays_per_bin"}
          ELSE Broken([radii_scale |-> Scales(e),
                       every_ray_counted_once |-> IF e.op = "mfp_from_point" THEN total = e.it ELSE total <= e.it])
               \cup (IF Len(e.starts) = 0 THEN {} ELSE Bins(e, reg, counts, IF e.op = "mfp_from_point" THEN 0 ELSE 1))
\* the same starting distribution per cell and at random: random starts average the cells of the region
Mixed(e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE LET n == Len(e.points)
           mean(b) == LET S[i \in 0..n] == IF i = 0 THEN 0 ELSE S[i - 1] + (IF b \in DOMAIN e.points[i] THEN e.points[i][b] ELSE 0)
                      IN FDiv(FMul(S[n], e.it), n * e.itp)
           tot(s) == LET S[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE S[i - 1] + s[i] IN S[Len(s)]
           B == 1..Len(e.counts)
       IN Broken([every_ray_counted_once |-> tot(e.counts) = e.it /\ \A i \in 1..n : tot(e.points[i]) = e.itp,
                  bins_are_step_counts |-> \A b \in DOMAIN e.sizes : FEq(e.sizes[b], b - 1),
                  random_starts_average_the_region |-> \A b \in B : FLe(FAbs(FSub(e.counts[b], mean(b))), FAdd(Slack(e.it), FMul(FLit("0.01"), e.it)))])
Averaged(e) ==
  LET reg == Marked(e)  empty == \A i \in DOMAIN reg : ~ reg[i] IN
  IF e.exc # "" THEN {"no_exception"}
  ELSE IF empty THEN Broken([empty_region_all_zero |-> \A i \in DOMAIN e.p : FEq(e.p[i], 0)])
  ELSE \* a density in log r over bins of equal width: integrates to one; mean lengths inside the possible range
    LET n == Len(e.r)  w == FDiv(FLn(FDiv(e.r[n], e.r[1])), n - 1)
        occ == {i \in DOMAIN e.p : FLt(0, e.p[i])}
    IN Broken([integrates_to_one |-> FNear(FMul(FSum(e.p), w), 1, FLit("1e-6"), 0),
               mean_length_of_a_ray |-> LET m == MaxBin(e.shape)  t == Expect(e, reg, Dirs3(e.degstep))
                     wt == TLCEval([b \in 1..(m + 1) |-> t.lo[b - 1] + t.hi[b - 1]])  tot == FSum(wt)
                     mean == FDiv(FSum([b \in DOMAIN wt |-> (b - 1) * wt[b]]), tot)
                     var == FDiv(FSum([b \in DOMAIN wt |-> FMul(wt[b], FPow(FSub(b - 1, mean), 2))]), tot)
                     got == FDiv(FMul(FMul(FDot(e.r, e.p), w), e.shape[1]), e.boxsize)
                 IN FLe(FAbs(FSub(got, mean)), FAdd(FMul(5, FSqrt(FDiv(var, e.it))), FMul(FLit("0.04"), mean))),
               lengths_within_box |-> \A i \in occ : FLe(FDiv(FMul(e.r[i], e.shape[1]), e.boxsize), FAdd(MaxBin(e.shape), 1))])
\* ---- spherical averages -------------------------------------------------------
Ball(r) == LET n == FFloor(FAdd(FMul(2, r), 1))
               c == TLCEval([i \in 1..n |-> FAdd(FMul(i - 1, FDiv(FSub(r, FNeg(r)), n - 1)), FNeg(r))])
               sq == TLCEval([i \in 1..n |-> FMul(c[i], c[i])])  rr == FMul(r, r)
           IN [n |-> n, in |-> SelectSeq([m \in 1..(n * n * n) |-> <<(m - 1) \div (n * n), ((m - 1) \div n) % n, (m - 1) % n>>],
                                         LAMBDA t : FLe(FAdd(FAdd(sq[t[1] + 1], sq[t[2] + 1]), sq[t[3] + 1]), rr))]
\* average over the kernel placed as 'same' convolution places it: output cell c sees input c + (n-1)/2 - j
BallMean(sh, v, K, c) ==
  LET h == (K.n - 1) \div 2  p == c[1] + h  q == c[2] + h  r == c[3] + h
      at(t) == LET x == p - t[1]  y == q - t[2]  z == r - t[3]
               IN IF x >= 0 /\ x < sh[1] /\ y >= 0 /\ y < sh[2] /\ z >= 0 /\ z < sh[3] THEN v[1 + (x * sh[2] + y) * sh[3] + z] ELSE 0
  IN FDiv(FSum([k \in DOMAIN K.in |-> at(K.in[k])]), Len(K.in))
Spa(e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE IF Len(e.r) # Len(e.p) THEN {"one_value_per_radius"}
  ELSE LET nr == Len(e.r)  sh == e.shape
           px == TLCEval([i \in 1..nr |-> FDiv(FMul(e.r[i], sh[1]), e.boxsize)])
           radii == IF e.linear THEN \A i \in 1..nr : FNear(px[i], FAdd(1, FDiv(FMul(i - 1, FSub(FDiv(sh[1], 2), 1)), nr - 1)), FLit("1e-9"), 0)
                    ELSE \A i \in 1..nr : FNear(px[i], FMul(2, FPow(FDiv(sh[1], 4), FDiv(i - 1, nr - 1))), FLit("1e-9"), 0)
           sgn == IF e.upper THEN -1 ELSE 1
           v == TLCEval([i \in DOMAIN e.v |-> FMul(sgn, e.v[i])])  th == FMul(sgn, e.xth)
           K == TLCEval([i \in 1..nr |-> Ball(px[i])])
           sel(i) == {c \in DOMAIN e.v : LET x == <<Co(sh, c, 1), Co(sh, c, 2), Co(sh, c, 3)>> IN FLe(th, BallMean(sh, v, K[i], x))}
           S == TLCEval([i \in 1..nr |-> TLCEval(sel(i))])
           cnt(i) == Cardinality(S[i] \ UNION {S[j] : j \in (i + 1)..nr})
           tot == Cardinality(UNION {S[i] : i \in 1..nr})
       IN IF ~ radii THEN {"listed_radii"}
          ELSE Broken([cell_gets_largest_radius |-> \A i \in 1..nr : FNear(e.p[i], IF tot = 0 THEN 0 ELSE FRat(cnt(i), tot), FLit("1e-9"), FLit("1e-12"))])
Dist(e) ==  \* dist_from_volumes with null_factor 0: every region in exactly one bin
  IF e.exc # "" THEN {"no_exception"}
  ELSE LET n == Len(e.sizes)  nb == Len(e.edges) - 1
           res3 == FMul(e.res, FMul(e.res, e.res))
           inbin(s, i) == /\ FLe(FMul(e.edges[i], FSub(1, FLit("1e-9"))), FMul(s, res3))
                          /\ FLe(FMul(s, res3), FMul(e.edges[i + 1], FAdd(1, FLit("1e-9"))))
           sure(s, i) == /\ FLe(FMul(e.edges[i], FAdd(1, FLit("1e-9"))), FMul(s, res3))
                         /\ FLe(FMul(s, res3), FMul(e.edges[i + 1], FSub(1, FLit("1e-9"))))
           hi(i) == Cardinality({k \in 1..n : inbin(e.sizes[k], i)})  lo(i) == Cardinality({k \in 1..n : sure(e.sizes[k], i)})
       IN Broken([sums_to_one |-> FNear(FSum(e.p), 1, FLit("1e-9"), 0),
                  regions_in_their_bins |-> \A i \in 1..nb : LET k == FMul(e.p[i], n) IN FLe(lo(i), FAdd(k, FLit("1e-6"))) /\ FLe(k, FAdd(hi(i), FLit("1e-6")))])
Rebin(e) == IF e.exc # "" THEN {"no_exception"}
            ELSE Broken([rebinned_values_on_the_curve |-> Len(e.r) = Len(e.want_r) /\ \A i \in DOMAIN e.r : FEq(e.r[i], e.want_r[i]) /\ FNear(e.p[i], e.want_p[i], FLit("1e-9"), FLit("1e-9"))])
\* a number of bins: spaced evenly in log r from r_min to r_max, with the curve's own values at both ends
RebinRange(e) == IF e.exc # "" THEN {"no_exception"}
  ELSE Broken([rebinned_radii |-> Len(e.r) = e.bins /\ Len(e.p) = e.bins /\ \A i \in 1..e.bins : FNear(e.r[i], FMul(e.lo, FPow(FDiv(e.hi, e.lo), FDiv(i - 1, e.bins - 1))), FLit("1e-9"), 0),
               rebinned_values_on_the_curve |-> FNear(e.p[1], e.ends[1], FLit("1e-6"), FLit("1e-6")) /\ FNear(e.p[e.bins], e.ends[2], FLit("1e-6"), FLit("1e-6"))])
B03Verdict(t, e) ==
  CASE e.op \in {"mfp", "mfp_from_point"} -> Mfp(e)
    [] e.op = "mixed" -> Mixed(e)
    [] e.op = "averaged_mfp" -> Averaged(e)
    [] e.op = "spa" -> Spa(e)
    [] e.op = "dist" -> Dist(e)
    [] e.op = "rebin_range" -> RebinRange(e)
    [] e.op = "rebin" -> Rebin(e)
    [] OTHER -> {"unknown_event"}
=============================================================================
