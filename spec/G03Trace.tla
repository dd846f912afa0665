------------------------------ MODULE G03Trace ------------------------------
(* G03: noise of radio interferometers.  State: the constants in force.       *)
EXTENDS Noise, Uv, TraceDriver
G03Begin(s) == s.init
G03After(t, e) == t
Rt == FLit("1e-9")
Far == FLit("2e-5")          \* where distances (their table of the cosmology) come in
Eq(a, b) == FNear(a, b, Rt, F(0))
TopOf(x) == FoldLeft(LAMBDA m, v : FMax(m, FAbs(v)), F(0), x)
All(a, b, r) == LET at == FMul(r, FMul(FLit("1e-3"), TopOf(b))) IN Len(a) = Len(b) /\ \A i \in DOMAIN b : FNear(a[i], b[i], r, at)
\* the noise source p at frequency nu; T and ep are given values (empty: the documented default)
SefdOf(q, p, i, nu) ==
  IF p.table # <<>> THEN TableAt(p.table[1], p.table[2], nu)
  ELSE SEFD(q, IF p.T = <<>> THEN DefaultT(nu) ELSE p.T[i], IF p.ep = <<>> THEN DefaultEp(nu) ELSE p.ep[i], p.D)
SefdEv(q, e) == IF e.rshape # e.shape THEN {"sefd_shape"} ELSE
  Broken([sefd |-> \A i \in DOMAIN e.nus : FNear(e.r[i], SefdOf(q, e.p, i, e.nus[i]), FLit("1e-7"), F(0))])
SigmaEv(q, e) == LET s == SefdOf(q, e.p, 1, NuOf(q, e.z)) IN
  Broken([visibility_noise |-> FNear(e.rms, Visibility(s, e.depth, e.secs), FLit("1e-7"), F(0)),
          image_noise |-> FNear(e.sigma, Image(s, e.depth, e.secs, e.hours, e.na), FLit("1e-7"), F(0))])
ConvertEv(q, e) == LET f == PerPixel(q, e.n, e.z, e.L) IN
  Broken([per_pixel |-> FNear(e.f, f, Far, F(0)),
          to_jansky |-> All(e.jy, [i \in DOMAIN e.x |-> FMul(e.x[i], f)], Far),
          to_kelvin |-> All(e.mk, [i \in DOMAIN e.x |-> FDiv(e.x[i], f)], Far),
          inverse |-> All(e.back, e.x, Rt)])
WindowEv(q, e) == LET n == e.n  d == e.ndim  w == TLCEval([i \in 0..n - 1 |-> Taper(e.kind, e.par, n, i)]) IN
  IF e.rshape # [a \in 1..d |-> n] THEN {"window_shape"} ELSE
  Broken([window |-> \A i \in DOMAIN e.r : FNear(e.r[i], CASE d = 1 -> w[i - 1] [] d = 2 -> FMul(w[(i - 1) \div n], w[(i - 1) % n]) [] OTHER -> FMul(w[(i - 1) \div (n * n)], FMul(w[((i - 1) \div n) % n], w[(i - 1) % n])), Rt, FLit("1e-12"))])
\* weights of the uv cells
ApplyEv(q, e) ==
  Broken([weighted |-> Len(e.re) = Len(e.uv) /\ \A i \in DOMAIN e.uv : LET w == IF e.thr THEN Weight(e.nat, e.uv[i]) ELSE IF FEq(e.uv[i], 0) THEN F(0) ELSE FDiv(1, FSqrt(e.uv[i])) IN
             FNear(e.re[i], FMul(w, e.xre[i]), Rt, FLit("1e-12")) /\ FNear(e.im[i], FMul(w, e.xim[i]), Rt, FLit("1e-12")),
          inputs_untouched |-> e.same])
BriggsEv(q, e) ==
  Broken([unsampled_empty |-> \A i \in DOMAIN e.uv : FEq(e.uv[i], 0) => FEq(e.re[i], 0) /\ FEq(e.im[i], 0), inputs_untouched |-> e.same])
\* one map: nothing in modes sampled on neither side
MapEv(q, e) == LET n == e.n IN
  IF e.rshape # <<n, n>> THEN {"map_shape"} ELSE
  LET t == TLCEval(Transform(<<n, n>>, e.r))  s == FMul(FLit("1e-9"), FSum([i \in DOMAIN e.r |-> FAbs(e.r[i])])) IN
  Broken([unsampled_empty |-> \A i \in DOMAIN e.uv : FLt(e.uv[i], UvMin) /\ FLt(e.uv[Opp(n, i)], UvMin) => FLe(FAbs(t[i][1]), s) /\ FLe(FAbs(t[i][2]), s),
          finite |-> \A i \in DOMAIN e.r : FFinite(e.r[i]), inputs_untouched |-> e.same])
\* two maps of the same random numbers: the second observation and coverage against the first
Obs(q, o) == FMul(Depth(SefdOf(q, o.p, 1, NuOf(q, o.z)), o.depth, o.hours), o.uvs)
ScaledEv(q, e) == LET f == FDiv(Obs(q, e.b), Obs(q, e.a)) IN Broken([radiometer |-> All(e.r, [i \in DOMAIN e.x |-> FMul(f, e.x[i])], FLit("1e-7"))])
\* the same random numbers with natural and uniform weighting of an even coverage
WeightingEv(q, e) == LET n == e.n  a == TLCEval(Transform(<<n, n>>, e.natural))  b == TLCEval(Transform(<<n, n>>, e.uniform))  s == FMul(FLit("1e-9"), FSum([i \in DOMAIN e.uniform |-> FAbs(e.uniform[i])])) IN
  Broken([natural_weight |-> \A i \in DOMAIN e.uv : IF FLt(e.uv[i], UvMin) THEN FNear(a[i][1], 0, 0, s) /\ FNear(a[i][2], 0, 0, s) /\ FNear(b[i][1], 0, 0, s) /\ FNear(b[i][2], 0, 0, s)
             ELSE LET r == FSqrt(e.uv[i]) IN FNear(FMul(a[i][1], r), b[i][1], Rt, s) /\ FNear(FMul(a[i][2], r), b[i][2], Rt, s)])
\* many maps: e.power is the mean square modulus of every mode over e.maps maps, e.mean that of the mean map
PowerEv(q, e) ==
  LET n == e.n  S == {i \in DOMAIN e.uv : ~ (FLt(e.uv[i], UvMin) /\ FLt(e.uv[Opp(n, i)], UvMin))}  d == Obs(q, e.a)
      want == TLCEval([i \in DOMAIN e.uv |-> FMul(FMul(d, d), Power(n, e.nat, e.uv, i))])
      ratio(i) == FDiv(e.power[i], want[i])  L == SetToSeq(S) IN
  Broken([mode_power |-> \A i \in S : FNear(ratio(i), 1, F(0), e.each),
          total_power |-> FNear(FDiv(FSum([k \in DOMAIN L |-> ratio(L[k])]), Len(L)), 1, F(0), e.all),
          zero_mean |-> \A i \in S : FLt(FDiv(FMul(e.mean[i], e.maps), want[i]), 30),
          independent |-> \A i \in S : FLt(FMul(e.corr[i], e.maps), 30)])
\* cubes: successive maps, in mK; the maps were made with channel and hours of e.ref
StackEv(q, e) ==
  LET n == e.n  m == Len(e.zs) IN
  IF e.rshape # <<n, n, m>> THEN {"cube_shape"} ELSE
  Broken([successive_maps |-> \A k \in 1..m :
     LET dep == IF e.depth # <<>> THEN e.depth[1] ELSE IF e.coeval THEN BoxChannel(q, e.zs[1], e.L, n) ELSE ChanOf(q, e.zs, k)
         f == FDiv(FSqrt(FDiv(e.ref, dep)), PerPixel(q, n, e.zs[k], e.L)) IN
     All([i \in 1..(n * n) |-> e.r[1 + (i - 1) * m + k - 1]], [i \in 1..(n * n) |-> FMul(f, e.maps[k][i])], FLit("1e-4")),
     redshifts |-> e.around = <<>> \/ \A k \in 1..m : FNear(Dc(q, e.zs[k]), FAdd(FSub(Dc(q, e.around[1]), FDiv(e.L, 2)), FMul(k - 1, FDiv(e.L, m - 1))), Far, F(0))])
PsEv(q, e) == Broken([ps_error |-> \A i \in DOMAIN e.k : FNear(e.r[i], PsError(q, [e.a EXCEPT !.k = e.k[i]]), FLit("1e-4"), F(0))])
G03Verdict(t, e) ==
  IF e.op = "refuses" THEN Broken([bad_input_refused |-> e.exc # ""])
  ELSE IF e.exc # "" THEN {"no_exception"}
  ELSE CASE e.op = "sefd" -> SefdEv(t, e)
    [] e.op = "sigma" -> SigmaEv(t, e)
    [] e.op = "convert" -> ConvertEv(t, e)
    [] e.op = "window" -> WindowEv(t, e)
    [] e.op = "apply" -> ApplyEv(t, e)
    [] e.op = "briggs" -> BriggsEv(t, e)
    [] e.op = "map" -> MapEv(t, e)
    [] e.op = "scaled" -> ScaledEv(t, e)
    [] e.op = "weighting" -> WeightingEv(t, e)
    [] e.op = "power" -> PowerEv(t, e)
    [] e.op = "stack" -> StackEv(t, e)
    [] e.op = "pserror" -> PsEv(t, e)
    [] OTHER -> {"unknown_event"}
=============================================================================
