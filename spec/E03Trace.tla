------------------------------ MODULE E03Trace ------------------------------
(* E03: every recorded convolution or smoothing is the direct sum of Conv.    *)
EXTENDS Conv, TraceDriver
E03Begin(s) == s.init
E03After(t, e) == t
Top(d) == IF d = <<>> THEN 0 ELSE FoldLeft(LAMBDA m, x : FMax(m, FAbs(x)), 0, d)
Near(v, w, amp) == FNear(v, w, FLit("1e-9"), FMul(FLit("1e-11"), amp))
\* the observed array o equals, cell by cell, the convolution of d
Equals(o, mode, bnd, s1, s2, d, k) ==
  LET so == OutShape(mode, bnd, s1, s2)  amp == FMul(Top(d), FSum([j \in DOMAIN k |-> FAbs(k[j])])) IN
  o.shape = so /\ \A i \in 1..Size(so) : Near(o.v[i], ConvAt(mode, bnd, s1, s2, so, d, k, i), amp)
ConvV(e) == IF e.exc # "" THEN {"no_exception"} ELSE Broken([direct_sum |-> Equals(e.o, e.mode, e.bnd, e.s1, e.s2, e.a, e.k)])
\* ---- kernels ----
Ker(kind, sh, w) ==
  CASE kind = "gauss" -> Gauss(sh, w) [] kind = "fwhm" -> Gauss(sh, Sigma(w)) [] kind \in {"tophat", "cube"} -> Cube(sh, w) [] kind = "sphere" -> Ball(sh, w)
\* reflection of a cell through the centre (periodic, so that even sizes have one)
Opp(sh, i) == LET P[a \in 0..Len(sh)] == IF a = 0 THEN 1 ELSE P[a - 1] + Mod2(2 * (sh[a] \div 2) - Co(sh, i, a), sh[a]) * Stride(sh, a) IN P[Len(sh)]
Rev(sh, i) == Size(sh) + 1 - i
KernelV(e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE IF e.o.shape # e.sh THEN {"shape"}
  ELSE LET v == e.o.v IN
    Broken([sums_to_one |-> FNear(FSum(v), 1, FLit("1e-9"), 0),
            non_negative |-> e.kind = "lanczos" \/ \A i \in DOMAIN v : FLe(0, v[i]),
            symmetric |-> IF e.kind = "lanczos" THEN \A i \in DOMAIN v : Near(v[i], v[Rev(e.sh, i)], 1)
                          ELSE IF e.kind \in {"tophat", "cube"} /\ FEq(F(FFloor(FDiv(e.w, 2))), FDiv(e.w, 2)) THEN TRUE
                          ELSE \A i \in DOMAIN v : Near(v[i], v[Opp(e.sh, i)], 1),
            documented_shape |-> e.kind = "lanczos" \/ LET k == Ker(e.kind, e.sh, e.w) IN \A i \in DOMAIN v : Near(v[i], k[i], FLit("1e-3"))])
\* ---- smoothing of slices and cubes ----
SmoothV(e) == IF e.exc # "" THEN {"no_exception"} ELSE
  Broken([circular_convolution_with_its_kernel |-> Equals(e.o, "same", "circular", e.s1, e.s1, e.a, IF e.kind = "given" THEN e.k ELSE Ker(e.kind, e.s1, e.w)),
          constants_and_totals |-> e.kind = "given" \/ FNear(FSum(e.o.v), FSum(e.a), FLit("1e-9"), FMul(FLit("1e-11"), FMul(Len(e.a), Top(e.a))))])
Axis(nd, x) == IF x < 0 THEN nd + x + 1 ELSE x + 1
\* kernel shape acting along (or across) axis ax of a cube
Along(sh, ax) == TLCEval([a \in DOMAIN sh |-> IF a = ax THEN sh[a] ELSE 1])
Across(sh, ax) == TLCEval([a \in DOMAIN sh |-> IF a = ax THEN 1 ELSE sh[a]])
AlongSky(sh, ax, d, w) ==  \* the cube smoothed across the sky, slice m with width w[m]
  LET s2 == Across(sh, ax)  ks == TLCEval([m \in 1..sh[ax] |-> Gauss(s2, Sigma(w[m]))])
  IN [i \in 1..Size(sh) |-> ConvAt("same", "circular", sh, s2, sh, d, ks[Co(sh, i, ax) + 1], i)]
AlongNu(sh, ax, d, w) ==
  LET s2 == Along(sh, ax)  k == Cube(s2, w) IN [i \in 1..Size(sh) |-> ConvAt("same", "circular", sh, s2, sh, d, k, i)]
Same(o, sh, w, amp) == o.shape = sh /\ \A i \in 1..Size(sh) : Near(o.v[i], w[i], amp)
\* mean of the slices (along the third axis) whose redshift lies within dz/2 of each slice's own
Window(sh, d, z, dz) ==
  LET in(m, q) == FLe(FSub(z[m], FDiv(dz[m], 2)), z[q]) /\ FLe(z[q], FAdd(z[m], FDiv(dz[m], 2)))
      sel == TLCEval([m \in 1..sh[3] |-> SelectSeq([q \in 1..sh[3] |-> q], LAMBDA q : in(m, q))])
  IN [i \in 1..Size(sh) |-> LET m == Co(sh, i, 3) + 1 s == sel[m] IN FDiv(FSum([q \in DOMAIN s |-> d[i + s[q] - m]]), Len(s))]
Width(q, dc, z, B, n, box) == FDiv(FMul(FMul(FDiv(FMul(FAdd(1, z), FLit("21e-5")), B), dc), n), box)   \* cells
CubeV(e) ==
  LET ax == Axis(3, e.nu)  amp == Top(e.a) IN
  IF e.exc # "" THEN {"no_exception"} ELSE
  CASE e.kind = "sky" -> Broken([each_slice_with_its_own_width |-> Same(e.o, e.s1, AlongSky(e.s1, ax, e.a, e.w), amp)])
    [] e.kind = "nu" -> Broken([along_the_frequency_axis_only |-> Same(e.o, e.s1, AlongNu(e.s1, ax, e.a, e.w), amp)])
    [] e.kind = "coeval" -> LET w == Width(0, e.dc, e.z, e.B, e.s1[1], e.box) s == AlongNu(e.s1, ax, e.a, FMul(w, e.ratio)) IN
         Broken([along_then_across |-> Same(e.o, e.s1, AlongSky(e.s1, ax, s, [m \in 1..e.s1[ax] |-> w]), amp)])
    [] e.kind = "window" -> Broken([mean_over_own_window |-> Same(e.o, e.s1, Window(e.s1, e.a, e.z, e.dz), amp)])
    [] e.kind = "lightcone" ->
         LET n == e.s1[3]
             w == TLCEval([m \in 1..n |-> Width(0, e.dc[m], e.z[m], e.B, e.s1[1], e.box)])
             dz == TLCEval([m \in 1..n |-> FDiv(FMul(FMul(FMul(e.ratio, w[m]), FDiv(e.box, e.s1[1])), e.H[m]), e.c)])
             s == Window(e.s1, e.a, e.z, dz)
         IN Broken([along_then_across |-> Same(e.o, e.s1, AlongSky(e.s1, 3, s, w), amp),
                    redshifts |-> Len(e.zo) = n /\ \A m \in 1..n : FNear(e.zo[m], e.z[m], FLit("1e-9"), 0)])
\* ---- one-dimensional smoothing of a line: window centred on every sample, zero outside ----
Tri(m) == TLCEval([j \in 1..(2 * m - 1) |-> IF j <= m THEN j ELSE 2 * m - j])
Raised(m, al) == TLCEval([j \in 1..m |-> IF m = 1 THEN 1 ELSE FSub(al, FMul(FSub(1, al), FCos(FDiv(FMul(FMul(2, FLit("3.141592653589793")), j - 1), m - 1))))])
LineWindow(e) ==
  CASE e.kind \in {"tophat", "boxcar"} -> [j \in 1..e.w |-> 1]
    [] e.kind \in {"gaussian", "normal"} -> [j \in 1..(6 * e.w + 1) |-> LET x == j - 1 - 3 * e.w IN FExp(FNeg(FRat(x * x, 2 * e.w * e.w)))]
    [] e.kind = "triangular" -> Tri(e.w)
    [] e.kind = "hamming" -> Raised(e.w, FLit("0.54")) [] e.kind = "hanning" -> Raised(e.w, FLit("0.5")) [] e.kind = "given" -> e.k
LineV(e) ==
  IF e.exc # "" THEN {"no_exception"} ELSE
  LET k == Norm(LineWindow(e))  m == Len(k)  n == Len(e.a)
      w(i) == FSum([j \in 1..m |-> LET p == i + ((m - 1) \div 2) - (j - 1) IN IF p < 1 \/ p > n THEN 0 ELSE FMul(k[j], e.a[p])])
  IN Broken([weighted_mean_around_each_sample |-> e.o.shape = <<n>> /\ \A i \in 1..n : Near(e.o.v[i], w(i), Top(e.a))])
\* ---- beam: the Gaussian whose width is the beam's share of the field of view ----
BeamV(e) ==
  IF e.exc # "" THEN {"no_exception"} ELSE
  LET lambda == FDiv(FMul(FDiv(e.c, e.nu0), FAdd(1, e.z)), FLit("1e3"))     \* metres
      beam == IF e.arcmin THEN e.w ELSE FMul(FDiv(FDiv(lambda, e.w), FLit("3.141592653589793")), 180 * 60)
      fov == FDiv(e.arcsec, 60)
      sigma == FMul(Sigma(FDiv(beam, fov)), e.s1[1])
  IN Broken([beam_of_the_stated_width |-> e.o.shape = e.s1 /\ LET k == Gauss(e.s1, sigma) IN
               \A i \in 1..Size(e.s1) : FNear(e.o.v[i], ConvAt("same", "circular", e.s1, e.s1, e.s1, e.a, k, i), FLit("1e-6"), FMul(FLit("1e-8"), Top(e.a)))])
E03Verdict(t, e) ==
  CASE e.op = "conv" -> ConvV(e)
    [] e.op = "kernel" -> KernelV(e)
    [] e.op = "smooth" -> SmoothV(e)
    [] e.op = "cube" -> CubeV(e)
    [] e.op = "line" -> LineV(e)
    [] e.op = "beam" -> BeamV(e)
    [] e.op = "same" -> Broken([same |-> e.same])
    [] OTHER -> {"unknown_event"}
=============================================================================
