------------------------------ MODULE W01Trace ------------------------------
(* W01: lightcones between comoving and observed coordinates.  State: the
   constants in force.                                                         *)
EXTENDS Sky, TraceDriver
W01Begin(s) == s.init
W01After(t, e) == t
RtL == FLit("1e-9")
Top(x) == FoldLeft(LAMBDA m, v : FMax(m, FAbs(v)), F(0), x)
Slk(x) == FMul(FLit("1e-10"), Top(x))
Close(a, b, at) == FNear(a, b, RtL, at)
\* arrays as flat sequences, shape <<a, b, m>>
At3(x, b, m, i, j, k) == x[1 + ((i * b) + j) * m + k]
Slice(x, n, m, k) == [i \in 1..(n * n) |-> x[1 + (i - 1) * m + k]]
\* mean over the window of s slices at k of the line of sight starting at flat index o
Mean(x, o, m, s, k) == LET lo == IF k - (s \div 2) < 0 THEN 0 ELSE k - (s \div 2)  hi == IF k + ((s - 1) \div 2) >= m THEN m - 1 ELSE k + ((s - 1) \div 2) IN
  FDiv(FSum([j \in 1..(hi - lo + 1) |-> x[o + lo + j - 1]]), hi - lo + 1)
\* output slice i of a lightcone whose slices are c deep: the mean at one of the slices K
BinnedSlice(e, c, i, s, K, at) == \E k \in K : \A l \in 1..(e.shape[1] * e.shape[2]) : Close(e.r[1 + (l - 1) * c + i], Mean(e.x, 1 + (l - 1) * e.shape[3], e.shape[3], s, k), at)
BinNu(q, e) ==
  LET c == Len(e.freqs)  m == e.shape[3]  cell == FDiv(e.L, e.shape[1])  at == Slk(e.x) IN
  IF c = 0 \/ e.rshape # <<e.shape[1], e.shape[2], c>> THEN {"binned_shape"} ELSE
  Broken([channels_even |-> \A i \in 1..c : FNear(e.freqs[i], ChanNu(q, e.zlow, e.dnu, i - 1), FLit("1e-6"), F(0)),
          channels_inside |-> ChanCountOk(q, e.zlow, cell, m, e.dnu, c),
          channel_means |-> \E s \in ChanWidths(q, e.zlow, cell, e.dnu, c) : \A i \in 0..c - 1 : BinnedSlice(e, c, i, s, ChanSlices(q, e.zlow, cell, m, e.dnu, i), at)])
BinMpc(q, e) ==
  LET c == Len(e.zs)  m == e.shape[3]  at == Slk(e.x)  d == TLCEval([i \in 1..m |-> Dc(q, ZofNu(q, e.freqs[i]))]) IN
  IF e.rshape # <<e.shape[1], e.shape[2], c>> THEN {"binned_shape"} ELSE
  Broken([bins_even |-> \A i \in 1..c : FNear(Dc(q, e.zs[i]), FAdd(d[1], FMul(i - 1, e.cell)), FLit("1e-6"), F(0)),
          bins_inside |-> c \in BinCounts(d, e.cell),
          bin_means |-> \E s \in BinWidths(d, e.cell) : \A i \in 0..c - 1 : BinnedSlice(e, c, i, s, BinSlices(d, e.cell, i), at)])
\* r (accessed by r(i, j)) is p x p cells of the slice x (N x N) resampled to n x n, tiled
Resampled(x, N, n, order, pre, p, r(_, _), at) ==
  LET s == TLCEval(Smooth2(x, N, TopWidth(N, n, pre))) IN \A i, j \in 0..p - 1 : Sampled(s, N, n, order, Tile(n, i), Tile(n, j), r(i, j), RtL, at)
Resample(q, e) ==
  IF e.rshape # <<e.n, e.n>> THEN {"resampled_shape"} ELSE
  Broken([resampled |-> Resampled(e.x, e.N, e.n, e.order, e.prefilter, e.n, LAMBDA i, j : e.r[1 + e.n * i + j], Slk(e.x))])
ToAngular(q, e) ==
  LET p == IF Len(e.rshape) = 2 THEN e.rshape[1] ELSE 0 IN
  IF Len(e.rshape) # 2 \/ e.rshape[2] # p \/ p \notin SkyCells(e.fov, e.dtheta) THEN {"field_of_view"} ELSE
  Broken([angular_slice |-> \E n \in Filled(q, e.z, e.size, e.dtheta, p) : n >= 1 /\ Resampled(e.x, e.N, n, e.order, TRUE, p, LAMBDA i, j : e.r[1 + p * i + j], Slk(e.x))])
ToPhysical(q, e) ==
  LET p == IF Len(e.rshape) = 2 THEN e.rshape[1] ELSE 0 IN
  IF Len(e.rshape) # 2 \/ e.rshape[2] # p \/ p \notin {IF k > e.N THEN e.N ELSE k : k \in Wholes(FDiv(e.size, e.cell))} THEN {"physical_size"} ELSE
  Broken([physical_slice |-> \E n \in Needed(q, e.z, e.deg, e.cell) : n >= p /\ Resampled(e.x, e.N, n, e.order, e.prefilter, p, LAMBDA i, j : e.r[1 + p * i + j], Slk(e.x))])
\* the whole conversion to observed coordinates
ToObserved(q, e) ==
  LET c == Len(e.freqs)  N == e.shape[1]  m == e.shape[3]  cell == FDiv(e.L, N)  at == Slk(e.x)
      zhi == IF e.zhigh # <<>> THEN e.zhigh[1] ELSE ZofD(q, FAdd(Dc(q, e.zlow), FMul(m - 1, cell)), 60)
      flow == FMul(e.L, AngComDeg(q, 1, e.zlow))  fhigh == FMul(e.L, AngComDeg(q, 1, zhi))
      Field == SkyCells(flow, e.dtheta)  Cut == IF e.crop THEN SkyCells(fhigh, e.dtheta) ELSE Field
      p == IF Len(e.rshape) = 3 THEN e.rshape[1] ELSE 0
      ok(f, s, i) == \E k \in ChanSlices(q, e.zlow, cell, m, e.dnu, i) :
         LET b == TLCEval([l \in 1..(N * N) |-> Mean(e.x, 1 + (l - 1) * m, m, s, k)])  o == (f - p) \div 2 IN
         \E n \in Filled(q, ZofNu(q, e.freqs[i + 1]), e.L, e.dtheta, f) : n >= 1 /\
           LET w == TLCEval(Smooth2(b, N, TopWidth(N, n, TRUE))) IN
           \A u, v \in 0..p - 1 : Sampled(w, N, n, e.order, Tile(n, u + o), Tile(n, v + o), At3(e.r, p, c, u, v, i), RtL, at) IN
  IF Len(e.rshape) # 3 \/ c = 0 THEN {"field_of_view"}
  ELSE IF e.rshape # <<p, p, c>> \/ p \notin Cut THEN {"field_of_view"} ELSE
  Broken([channels_even |-> \A i \in 1..c : FNear(e.freqs[i], ChanNu(q, e.zlow, e.dnu, i - 1), FLit("1e-6"), F(0)),
          channels_inside |-> ChanCountOk(q, e.zlow, cell, m, e.dnu, c),
          observed |-> \E f \in Field : (e.crop \/ f = p) /\ f >= p /\ \E s \in ChanWidths(q, e.zlow, cell, e.dnu, c) : \A i \in 0..c - 1 : ok(f, s, i)])
\* and back
ToComoving(q, e) ==
  LET c == Len(e.zs)  N == e.shape[1]  m == e.shape[3]  at == Slk(e.x)  d == TLCEval([i \in 1..m |-> Dc(q, ZofNu(q, e.freqs[i]))])
      deg == FDiv(FMul(N, e.dtheta), 60)  size == DegToC(q, deg, ZofNu(q, e.freqs[1]))
      perp == FDiv(size, N)  par == FSub(d[m], d[m - 1])  cell == FMax(par, perp)
      p == IF Len(e.rshape) = 3 THEN e.rshape[1] ELSE 0
      P == {IF k > N THEN N ELSE k : k \in Wholes(FDiv(size, cell))}
      slice(k) == Slice(e.x, N, m, k)
      one(k, r(_, _)) == \E n \in Needed(q, ZofNu(q, e.freqs[k + 1]), deg, cell) : n >= p /\ Resampled(slice(k), N, n, e.order, TRUE, p, r, at)
      \* every bin one slice: the slices appear as they are; otherwise means of resampled slices
      cut(k, n) == LET w == TLCEval(Smooth2(slice(k), N, TopWidth(N, n, TRUE))) IN
         TLCEval([l \in 1..(p * p) |-> IF n = N THEN w[1 + N * ((l - 1) \div p) + ((l - 1) % p)] ELSE Bilinear(w, N, LookAt(N, n, (l - 1) \div p), LookAt(N, n, (l - 1) % p))])
      need(k) == CHOOSE n \in Needed(q, ZofNu(q, e.freqs[k + 1]), deg, cell) : TRUE
      flat == TLCEval([k \in 1..m |-> cut(k - 1, need(k - 1))])
      mean(s, k, l) == LET W == SelectSeq([j \in 1..m |-> j - 1], LAMBDA j : j >= k - (s \div 2) /\ j <= k + ((s - 1) \div 2)) IN
         FDiv(FSum([j \in DOMAIN W |-> flat[W[j] + 1][l]]), Len(W)) IN
  IF Len(e.rshape) # 3 THEN {"physical_size"}
  ELSE IF e.rshape # <<p, p, c>> \/ p \notin P THEN {"physical_size"} ELSE
  Broken([cell_size |-> FNear(e.cell, cell, FLit("1e-4"), F(0)),
          bins_even |-> \A i \in 1..c : FNear(Dc(q, e.zs[i]), FAdd(d[1], FMul(i - 1, e.cell)), FLit("1e-6"), F(0)),
          bins_inside |-> c \in BinCounts(d, e.cell),
          \* linear interpolation only, and only when no size is on the edge of a cell
          comoving |-> e.order # 1 \/ (\E k \in 0..m - 1 : Cardinality(Needed(q, ZofNu(q, e.freqs[k + 1]), deg, cell)) > 1) \/
             \E s \in BinWidths(d, e.cell) : \A i \in 0..c - 1 : \E k \in BinSlices(d, e.cell, i) : \A l \in 1..(p * p) : Close(e.r[1 + (l - 1) * c + i], mean(s, k, l), at)])
Pad(q, e) ==
  LET n == e.shape[1]  n2 == e.shape[2]  m == e.shape[3]  p == e.p  a == n + 2 * p  b == n2 + 2 * p IN
  IF e.rshape # <<a, b, m>> THEN {"padded_shape"} ELSE
  Broken([padded |-> \A i \in 0..a - 1, j \in 0..b - 1, k \in 0..m - 1 : FEq(At3(e.r, b, m, i, j, k), At3(e.x, n2, m, PadSrc(n, p, i), PadSrc(n2, p, j), k)),
          centre_restores |-> \A i \in 0..n - 1, j \in 0..n2 - 1, k \in 0..m - 1 : FEq(At3(e.r, b, m, i + p, j + p, k), At3(e.x, n2, m, i, j, k))])
\* relations between results: sum of c[i] * v[i] over the parts is the whole
Linear(e) == \A l \in DOMAIN e.r : FNear(e.r[l], FSum([i \in DOMAIN e.c |-> FMul(e.c[i], e.v[i][l])]), FLit("1e-8"), FMul(FLit("1e-8"), FAdd(Top(e.r), FSum([i \in DOMAIN e.c |-> FMul(FAbs(e.c[i]), Top(e.v[i]))]))))
W01Verdict(t, e) ==
  IF e.op = "untouched" THEN Broken([inputs_untouched |-> e.same])
  ELSE IF e.op = "refuses" THEN Broken([bad_input_refused |-> e.exc # ""])
  ELSE IF e.exc # "" THEN {"no_exception"}
  ELSE CASE e.op = "bin_nu" -> BinNu(t, e)
    [] e.op = "bin_mpc" -> BinMpc(t, e)
    [] e.op = "resample" -> Resample(t, e)
    [] e.op = "to_angular" -> ToAngular(t, e)
    [] e.op = "to_physical" -> ToPhysical(t, e)
    [] e.op = "to_observed" -> ToObserved(t, e)
    [] e.op = "to_comoving" -> ToComoving(t, e)
    [] e.op = "pad" -> Pad(t, e)
    [] e.op = "constant" -> Broken([constant_kept |-> \A l \in DOMAIN e.r : FNear(e.r[l], e.v, FLit("1e-8"), FMul(FLit("1e-8"), FAbs(e.v)))])
    [] e.op = "linear" -> Broken([linear |-> e.shapes /\ Linear(e)])
    [] e.op = "composed" -> Broken([slice_by_slice |-> e.shapes /\ Linear(e)])
    [] e.op = "transposed" -> Broken([axes_alike |-> e.shapes /\ Linear(e)])
    [] e.op = "default" -> Broken([defaults_as_documented |-> e.shapes /\ Linear(e)])
    [] OTHER -> {"unknown_event"}
=============================================================================
