------------------------------ MODULE B04Trace ------------------------------
(* B04: size distributions of regions.                                         *)
EXTENDS Sizes, TraceDriver
B04Begin(s) == s.init
B04After(t, e) == t
Rt == FLit("1e-9")
Eq(a, b) == FNear(a, b, Rt, FLit("1e-12"))
Mask(e) == TLCEval([i \in DOMAIN e.d |-> IF e.upper THEN FLt(e.d[i], e.xth) ELSE FLt(e.xth, e.d[i])])
OpenEv(e) == LET t == Three(e.sh)  B == {<<b[1], b[2], b[3]>> : b \in {e.struct[k] : k \in DOMAIN e.struct}}  W == TLCEval(Opening(t, e.mask, B)) IN
  IF e.rshape # e.sh THEN {"mask_shape"} ELSE Broken([opening |-> \A i \in DOMAIN e.r : e.r[i] = (i \in W), inputs_untouched |-> e.same])
GranEv(e) ==
  LET t == Three(e.sh)  dim == Len(e.sh)  m == TLCEval(Mask(e))  n == (CHOOSE s \in {e.sh[a] : a \in DOMAIN e.sh} : \A a \in DOMAIN e.sh : e.sh[a] <= s) \div 2
      s == TLCEval(Spectrum(TLCEval(Areas(dim, t, m, n)))) IN
  Broken([radii |-> Len(e.r) = n /\ \A k \in DOMAIN e.r : Eq(e.r[k], FMul(k - 1, FDiv(e.L, e.sh[1]))),
          spectrum |-> Len(e.p) = n /\ \A k \in DOMAIN s : Eq(e.p[k], s[k]),
          weighted |-> Len(e.rp) = n /\ \A k \in DOMAIN s : Eq(e.rp[k], FMul(k - 1, s[k])),
          inputs_untouched |-> e.same])
CdfEv(e) == LET t == Three(e.sh)  z == SortSeq(e.sizes, <) IN
  Broken([areas |-> Len(e.r) = Len(z) /\ \A k \in DOMAIN z : e.r[k] = Cardinality(Opening(t, e.mask, Ball(3, z[k]))), inputs_untouched |-> e.same])
\* separate convex regions: every one a region of the watershed
ShedEv(e) ==
  LET dim == Len(e.sh)  R == TLCEval([k \in DOMAIN e.vols |-> EffRadius(dim, e.vols[k])])  m == Len(R)
      edges(k) == <<FSub(k - 1, FRat(1, 2)), FSub(k, FRat(1, 2))>>
      share(k) == FDiv(Cardinality({i \in DOMAIN R : FLe(edges(k)[1], R[i]) /\ FLt(R[i], edges(k)[2])}), IF m = 0 THEN 1 ELSE m) IN
  Broken([radii |-> \A k \in DOMAIN e.r : Eq(e.r[k], FMul(k - 1, FDiv(e.L, e.sh[1]))),
          every_region |-> \A i \in DOMAIN R : FLt(R[i], FSub(Len(e.p), FLit("0.4999999"))),
          spectrum |-> \A k \in DOMAIN e.p : Eq(e.p[k], share(k)),
          weighted |-> Len(e.rp) = Len(e.p) /\ \A k \in DOMAIN e.p : Eq(e.rp[k], FMul(k - 1, share(k))),
          inputs_untouched |-> e.same])
\* histograms of a list of sizes; e.none: the value given for empty bins, if any (otherwise a thousandth of the smallest)
VolumeEv(e) ==
  LET n == e.bins  m == Len(e.sizes)  lv == TLCEval([i \in 1..m |-> Log10(e.sizes[i])])  lr == TLCEval([i \in 1..m |-> Log10(EffRadius(3, e.sizes[i]))])
      ev == TLCEval(SpanEdges(lv, n))  er == TLCEval(SpanEdges(lr, n))  res == e.res  res3 == FMul(res, FMul(res, res))
      lim(c) == FRint(FMul(c, m))  ok(c) == FNear(FMul(c, m), lim(c), Rt, FLit("1e-6")) IN
  IF Len(e.v) # n + 1 \/ Len(e.pv) # n + 1 \/ Len(e.r) # n + 1 \/ Len(e.pr) # n + 1 THEN {"bin_numbers"} ELSE
  LET none == e.pv[n + 1]  E == {k \in 1..n : FEq(e.pv[k], none)}  V == SelectSeq(e.pv, LAMBDA p : ~ FEq(p, none))  P == SelectSeq(SubSeq(e.pr, 2, n + 1), LAMBDA p : FLt(0, p)) IN
  Broken([volumes |-> \A k \in 1..n + 1 : FNear(e.v[k], FMul(FPow(10, ev[k]), res3), FLit("1e-8"), F(0)),
          radii |-> \A k \in 1..n + 1 : FNear(e.r[k], FMul(FPow(10, er[k]), res), FLit("1e-8"), F(0)),
          volume_counts |-> \A k \in 1..n : IF k \in E THEN CountOk(ev, k, lv, 0) ELSE ok(e.pv[k]) /\ CountOk(ev, k, lv, lim(e.pv[k])),
          radius_counts |-> \A k \in 1..n : ok(e.pr[k + 1]) /\ CountOk(er, k, lr, lim(e.pr[k + 1])),
          all_counted |-> V # <<>> /\ P # <<>> /\ Eq(FSum(V), 1) /\ Eq(FSum(P), 1),
          floor |-> V = <<>> \/ P = <<>> \/ IF e.none # <<>> THEN FEq(none, e.none[1]) /\ FEq(e.pr[1], e.none[1]) ELSE FNear(none, FDiv(FMinOf(V), 1000), Rt, F(0)) /\ FNear(e.pr[1], FDiv(FMinOf(P), 1000), Rt, F(0)),
          inputs_untouched |-> e.same])
\* sizes of the labels 1, 2, ... of a map, and their histogram
DistEv(e) ==
  LET n == e.bins  lab == {e.lab[i] : i \in DOMAIN e.lab} \ {0}  no == Cardinality(lab)
      S == TLCEval(IF e.given THEN e.sizes ELSE [k \in 1..no |-> Cardinality({i \in DOMAIN e.lab : e.lab[i] = k})])  m == Len(S)
      ls == TLCEval([i \in 1..m |-> FLn(S[i])])  ed == TLCEval(SpanEdges(ls, n)) IN
  IF Len(e.v) # n + 1 \/ Len(e.p) # n + 1 THEN {"bin_numbers"} ELSE
  Broken([sizes |-> Len(e.r) = m /\ \A k \in 1..m : FEq(e.r[k], S[k]),
          volumes |-> \A k \in 1..n + 1 : FNear(e.v[k], FMul(FExp(ed[k]), e.res), FLit("1e-8"), F(0)),
          counts |-> \A k \in 1..n : LET c == FRint(FMul(e.p[k], m)) IN FNear(FMul(e.p[k], m), c, Rt, FLit("1e-6")) /\ CountOk(ed, k, ls, c),
          all_counted |-> Eq(FSum(e.p), 1) /\ FEq(e.p[n + 1], 0), inputs_untouched |-> e.same])
\* sizes weighted by themselves, per box or per region
PlotEv(e) ==
  LET n == e.bins  m == Len(e.sizes)  ls == TLCEval([i \in 1..m |-> Log10(e.sizes[i])])  ed == TLCEval(SpanEdges(ls, n)) IN
  IF Len(e.x) # n + 1 \/ Len(e.p) # n + 1 THEN {"bin_numbers"} ELSE
  LET x(k) == FPow(10, ed[k])  E == {k \in 1..n : FEq(e.p[k], e.least)}  V == SelectSeq(e.p, LAMBDA p : ~ FEq(p, e.least))
      norm == IF e.region THEN FDiv(m, FSum([k \in 1..n |-> IF k \in E THEN F(0) ELSE FDiv(e.p[k], x(k))])) ELSE FMul(e.L, FMul(e.L, e.L))
      cnt(k) == FDiv(FMul(e.p[k], norm), x(k)) IN
  IF V = <<>> THEN {"all_counted"} ELSE
  Broken([volumes |-> \A k \in 1..n + 1 : FNear(e.x[k], x(k), FLit("1e-8"), F(0)),
          counts |-> \A k \in 1..n : IF k \in E THEN CountOk(ed, k, ls, 0) ELSE FNear(cnt(k), FRint(cnt(k)), FLit("1e-7"), FLit("1e-6")) /\ CountOk(ed, k, ls, FRint(cnt(k))),
          normalised |-> ~ e.region \/ FNear(FSum(V), 1, Rt, F(0)),
          floor |-> FNear(e.least, FDiv(FMinOf(V), 10), Rt, F(0)) /\ FEq(e.p[n + 1], e.least), inputs_untouched |-> e.same])
B04Verdict(t, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE CASE e.op = "open" -> OpenEv(e)
    [] e.op = "gran" -> GranEv(e)
    [] e.op = "cdf" -> CdfEv(e)
    [] e.op = "shed" -> ShedEv(e)
    [] e.op = "volumes" -> VolumeEv(e)
    [] e.op = "dist" -> DistEv(e)
    [] e.op = "plot" -> PlotEv(e)
    [] OTHER -> {"unknown_event"}
=============================================================================
