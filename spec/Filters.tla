------------------------------ MODULE Filters ------------------------------
(* Foreground filters in Fourier space, primary beams and foreground maps.
   A filter is a weight per cell of a cube of wavenumbers; what it leaves of a
   real map is, mode by mode, the map times the mean weight of the mode and its
   opposite.                                                                   *)
EXTENDS Fields, Noise
\* ---- the filter's own wavenumbers: n of them from minus to plus the largest of n cells in L
K0(n, L, i) == LET m == FDiv(FMul(PiF, n), L) IN IF n = 1 THEN FNeg(m) ELSE FAdd(FNeg(m), FMul(FDiv(FMul(2, m), n - 1), i))
SmallBase(q, z, base) == FDiv(PiF, FMul(Dc(q, z), FDiv(FDiv(21, base), 100)))
Edge(x, y) == FNear(x, y, FLit("2e-5"), FLit("1e-12"))
Perp(n, L, i, j) == LET a == K0(n, L, i)  b == K0(n, L, j) IN FSqrt(FAdd(FMul(a, a), FMul(b, b)))
\* [v, sure]: the weight of cell (i, j, k), and whether rounding cannot decide it otherwise
Cut(x, edge, v) == IF Edge(x, edge) THEN [v |-> v, sure |-> FEq(v, 0)] ELSE [v |-> IF FLt(edge, x) THEN v ELSE F(0), sure |-> TRUE]
Wedge(mu, kz) == FDiv(FMul(FAbs(kz), FSub(1, FMul(mu, mu))), mu)
Diabolo(n, L, mu, soft, kmin, i, j, k) ==
  LET k2 == Perp(n, L, i, j)  kr == Wedge(mu, K0(n, L, k)) IN
  IF soft THEN Cut(k2, kmin, FSub(1, FDiv(1, FAdd(1, FExp(FMul(10, FSub(k2, kr)))))))
  ELSE LET w == Cut(k2, kr, F(1))  m == Cut(k2, kmin, w.v) IN [v |-> m.v, sure |-> (w.sure \/ (m.sure /\ FLt(k2, kmin))) /\ m.sure]
Barrel(n, L, kmin, i, j) == Cut(Perp(n, L, i, j), kmin, F(1))
\* ---- the wedge of a lightcone: chunks of c channels, tapered, centred on each channel in turn
Blackman(c, j) == Taper("blackman", F(0), c, j)
TaperPower(c, j) ==
  LET re == FSum([t \in 1..c |-> FMul(Blackman(c, t - 1), FCos(FDiv(FMul(FMul(2, PiF), ((j * (t - 1)) % c)), c)))])
      im == FSum([t \in 1..c |-> FMul(Blackman(c, t - 1), FSin(FDiv(FMul(FMul(2, PiF), ((j * (t - 1)) % c)), c)))]) IN FAdd(FMul(re, re), FMul(im, im))
\* the buffer, in steps of the line-of-sight wavenumber: just before the first one with next to no power
BufferSteps(c, thr) ==
  LET p == [j \in 0..c - 1 |-> TaperPower(c, j)]  top == FMaxOf([j \in 1..c |-> p[j - 1]])
      S == {j \in 0..c - 1 : FLe(FDiv(p[j], top), thr)} IN
  IF S = {} THEN 0 - 1 ELSE (CHOOSE j \in S : \A i \in S : j <= i) - 1
\* slope of the horizon wedge in a flat universe
Slope(om, z) ==
  LET u == [Om |-> om, lam |-> FSub(1, om)]  f(x) == FDiv(FExp(x), EzC(u, FSub(FExp(x), 1))) IN
  FMul(FDiv(EzC(u, z), FAdd(1, z)), Simpson(f, 0, FLn(FAdd(1, z)), 64))
\* signed frequency number of index j among c
Turn(c, j) == IF 2 * j < c THEN j ELSE j - c
\* does a line-of-sight mode stay?  "keep", "drop" or "tie"; wavenumbers in units of one over the cell
Outside(perp, kz, slope, buf) ==
  LET e == FAdd(FMul(perp, slope), buf) IN
  IF FEq(kz, 0) THEN "drop" ELSE IF FNear(FAbs(kz), e, FLit("2e-5"), F(0)) THEN "tie" ELSE IF FLt(e, FAbs(kz)) THEN "keep" ELSE "drop"
\* channels (1-based) of the chunk around channel s, in order; those beyond the ends are empty
Chunk(c, s) == [t \in 1..c |-> s - (c \div 2) + t - 1]
\* channel whose redshift sets the slope: the last of the chunk
Reference(c, s, n) == LET l == s - (c \div 2) + c - 1 IN IF l > n THEN n ELSE l
\* ---- primary beams: distance from cell n/2 of an n x n sky of side L
Null(q, z, D) == FMul(FDiv(FMul(Dc(q, z), FDiv(FMul(q.c, FLit("1e-3")), NuOf(q, z))), D), FLit("1.22"))
Off(n, L, i) == FMul(FDiv(L, n), FSub(i, FRat(n, 2)))
Radius(n, L, i) == LET a == Off(n, L, (i - 1) \div n)  b == Off(n, L, (i - 1) % n) IN FSqrt(FAdd(FMul(a, a), FMul(b, b)))
\* Bessel function J1 by its integral (the trapezoidal rule converges faster than any power)
J1(x) == LET m == 96 IN FDiv(FSum([t \in 1..2 * m |-> LET a == FDiv(FMul(PiF, t), m) IN FCos(FSub(a, FMul(x, FSin(a))))]), 2 * m)
Airy(x) == IF FLt(x, FLit("1e-6")) THEN F(1) ELSE LET a == FDiv(FMul(2, J1(x)), x) IN FMul(a, a)
BeamAt(kind, r, null) ==
  CASE kind = "step" -> (IF FLe(r, FDiv(null, 2)) THEN F(1) ELSE F(0))
    [] kind = "gaussian" -> LET s == FDiv(FDiv(null, FLit("1.186")), FLit("2.355")) IN FExp(FNeg(FDiv(FMul(r, r), FMul(2, FMul(s, s)))))
    [] kind = "bessel" -> Airy(FMul(FDiv(FLit("3.8317"), null), r))
    [] OTHER -> FDiv(1, FAdd(1, FExp(FMul(FRat(1, 2), FSub(r, FDiv(null, 2))))))
\* normalised to the largest on the grid
BeamMap(kind, n, L, null) ==
  LET b == TLCEval([i \in 1..n * n |-> BeamAt(kind, Radius(n, L, i), null)])  top == FMaxOf(b) IN TLCEval([i \in 1..n * n |-> IF FLt(top, FLit("1e-9")) THEN FDiv(F(0), 0) ELSE FDiv(b[i], top)])
\* ---- Galactic synchrotron: one white complex map, coloured by frequency and multipole
SynchC(l, nu) == FMul(FMul(513, FPow(FDiv(1000, l), FLit("2.34"))), FPow(FDiv(nu, 150), FSub(FLit("-5.6"), FMul(FLit("0.2"), FLn(FDiv(nu, 150))))))
SynchAmp(q, n, L, z, i) ==
  LET d == Dc(q, z)  u(x) == FDiv(FMul(FAdd(FSub(x, FRat(n, 2)), FRat(1, 2)), d), L)  a == u((i - 1) \div n)  b == u((i - 1) % n)
      side == FDiv(L, d) IN
  IF FEq(a, 0) /\ FEq(b, 0) THEN F(0) ELSE FSqrt(FDiv(FMul(FMul(side, side), SynchC(FMul(FMul(2, PiF), FSqrt(FAdd(FMul(a, a), FMul(b, b)))), NuOf(q, z))), 2))
\* modulus of the inverse transform at cell x, modes in the order of the array
SynchCell(n, ct, sn, A, X, Y, x) ==
  LET ph == [i \in 1..n * n |-> 1 + (((((i - 1) \div n) * ((x - 1) \div n)) + (((i - 1) % n) * ((x - 1) % n))) % n)]
      re == FDiv(FSum([i \in 1..n * n |-> FMul(A[i], FSub(FMul(X[i], ct[ph[i]]), FMul(Y[i], sn[ph[i]])))]), n * n)
      im == FDiv(FSum([i \in 1..n * n |-> FMul(A[i], FAdd(FMul(X[i], sn[ph[i]]), FMul(Y[i], ct[ph[i]])))]), n * n) IN FSqrt(FAdd(FMul(re, re), FMul(im, im)))
\* ---- point sources: their number from the counts, each a power law in frequency; those in a pixel add up
Fluxes(smax) == [i \in 1..smax |-> FAdd(FRat(1, 10), FMul(i - 1, FRat(1, 100)))]
Trapz(x, y) == FSum([i \in 1..Len(x) - 1 |-> FDiv(FMul(FSub(x[i + 1], x[i]), FAdd(y[i], y[i + 1])), 2)])
SourceNo(q, S, L, z) ==
  LET side == FDiv(L, Dc(q, z))  y == [i \in DOMAIN S |-> FPow(S[i], FLit("-1.6"))] IN FMul(FMul(FPow(10, FLit("3.75")), Trapz(S, y)), FMul(side, side))
PointMap(q, n, L, z, src) ==
  LET f == PerPixel(q, n, z, L)  nu == FDiv(NuOf(q, z), 150) IN
  [i \in 1..n * n |-> FDiv(FSum([k \in DOMAIN src |-> IF src[k].x * n + src[k].y + 1 = i THEN FMul(src[k].s, FPow(nu, FNeg(src[k].a))) ELSE F(0)]), f)]
=============================================================================
