-------------------------------- MODULE Sky --------------------------------
(* Lightcones in comoving and in observed coordinates.  A comoving lightcone is
   N x N cells of L/N across the sky and M such cells deep, the first at the
   lowest redshift; an observed one has cells of dtheta arcmin and channels of
   dnu MHz, frequencies decreasing.  Arrays are flat, C order, line of sight
   last.                                                                       *)
EXTENDS Cosmo, Conv
\* ---- along the line of sight: the mean over the s slices centred on slice k (0-based) of those that exist
Window(m, s, k) == {j \in (k - (s \div 2))..(k + ((s - 1) \div 2)) : j >= 0 /\ j < m}
MeanOver(S, f(_)) == FDiv(FSum([j \in 1..Cardinality(S) |-> f(SetToSeq(S)[j])]), Cardinality(S))
\* whole part of x, both neighbours when x is an integer up to rounding
Hair == FLit("1e-4")
Wholes(x) == LET k == FFloor(x) IN {k} \cup (IF FLt(FSub(x, k), Hair) THEN {k - 1} ELSE {}) \cup (IF FLt(FSub(k + 1, x), Hair) THEN {k + 1} ELSE {})
Rounds(x) == {k \in (FFloor(x) - 1)..(FFloor(x) + 2) : FLe(FAbs(FSub(x, k)), FAdd(FRat(1, 2), Hair))}
AtLeast1(S) == {IF k < 1 THEN 1 ELSE k : k \in S}
\* channel i (0-based) of the binned lightcone, its distance beyond the first slice in cells
ChanNu(q, zlow, dnu, i) == FSub(NuOf(q, zlow), FMul(i, dnu))
Deep(q, zlow, cell, nu) == FDiv(FSub(Dc(q, ZofNu(q, nu)), Dc(q, zlow)), cell)
\* channels strictly nearer than the last slice
ChanCountOk(q, zlow, cell, m, dnu, c) ==
  /\ c = 1 \/ FLt(Deep(q, zlow, cell, ChanNu(q, zlow, dnu, c - 1)), FAdd(m - 1, Hair))
  /\ FLe(ChanNu(q, zlow, dnu, c), 1) \/ FLe(FSub(m - 1, Hair), Deep(q, zlow, cell, ChanNu(q, zlow, dnu, c)))
\* width in slices of the widest (last) channel
ChanWidths(q, zlow, cell, dnu, c) ==
  LET nu == ChanNu(q, zlow, dnu, c - 1) IN AtLeast1(Rounds(FDiv(FSub(Dc(q, ZofNu(q, nu)), Dc(q, ZofNu(q, FAdd(nu, dnu)))), cell)))
ChanSlices(q, zlow, cell, m, dnu, i) == {k \in Wholes(Deep(q, zlow, cell, ChanNu(q, zlow, dnu, i))) : k >= 0 /\ k < m}
\* bins of `cell` cMpc between the first and the last channel, distances d (increasing)
BinCounts(d, cell) == Wholes(FDiv(FSub(d[Len(d)], d[1]), cell))
BinWidths(d, cell) == AtLeast1(Rounds(FDiv(Len(d), FDiv(FSub(d[Len(d)], d[1]), cell))))
BinSlices(d, cell, i) ==
  LET x == FAdd(d[1], FMul(i, cell))  t == FMul(Hair, cell) IN
  {k \in 0..Len(d) - 1 : FLe(FSub(d[k + 1], t), x) /\ (k = Len(d) - 1 \/ FLt(x, FAdd(d[k + 2], t)))}
\* ---- across the sky: a slice of N x N cells resampled to n x n
\* smoothing over w x w cells, periodic (the top hat of Conv)
Smooth2(d, N, w) == IF w <= 1 THEN d ELSE
  [i \in 1..(N * N) |-> LET x == (i - 1) \div N  y == (i - 1) % N  lo == w - (w \div 2) - 1 IN
     FDiv(FSum([j \in 1..(w * w) |-> d[1 + N * Mod2(x - lo + ((j - 1) \div w), N) + Mod2(y - lo + ((j - 1) % w), N)]]), w * w)]
RoundEven(a, b) == LET f == a \div b  r == 2 * (a % b) IN IF r < b THEN f ELSE IF r > b THEN f + 1 ELSE IF f % 2 = 0 THEN f ELSE f + 1
TopWidth(N, n, prefilter) == IF ~ prefilter \/ RoundEven(N, n) < 1 THEN 1 ELSE RoundEven(N, n)
\* where output cell i (0-based) looks, in input cells: both ends are kept
LookAt(N, n, i) == IF n = 1 THEN F(0) ELSE FRat(i * (N - 1), n - 1)
Nearests(N, t) == {k \in 0..N - 1 : FLe(FAbs(FSub(t, k)), FLit("0.500000001"))}
Bilinear(d, N, s, t) ==
  LET a == IF FFloor(s) >= N - 1 THEN IF N = 1 THEN 0 ELSE N - 2 ELSE FFloor(s)  b == IF FFloor(t) >= N - 1 THEN IF N = 1 THEN 0 ELSE N - 2 ELSE FFloor(t)
      u == FSub(s, a)  v == FSub(t, b)  At(x, y) == d[1 + N * (IF x > N - 1 THEN N - 1 ELSE x) + (IF y > N - 1 THEN N - 1 ELSE y)] IN
  FAdd(FMul(FSub(1, u), FAdd(FMul(FSub(1, v), At(a, b)), FMul(v, At(a, b + 1)))), FMul(u, FAdd(FMul(FSub(1, v), At(a + 1, b)), FMul(v, At(a + 1, b + 1)))))
\* is r the value of output cell (i, j) for the smoothed slice d?
Sampled(d, N, n, order, i, j, r, rt, at) ==
  IF n = N THEN FNear(r, d[1 + N * i + j], rt, at)
  ELSE IF order = 0 THEN \E x \in Nearests(N, LookAt(N, n, i)), y \in Nearests(N, LookAt(N, n, j)) : FNear(r, d[1 + N * x + y], rt, at)
  ELSE FNear(r, Bilinear(d, N, LookAt(N, n, i), LookAt(N, n, j)), rt, at)
\* ---- sizes
\* cells of dtheta arcmin in a field of `deg` degrees
SkyCells(deg, dtheta) == Wholes(FDiv(FMul(deg, 60), dtheta))
Odd(n) == n % 2 = 1
\* observed cells that a slice of `size` cMpc fills at redshift z, in a field of `field` cells
Filled(q, z, size, dtheta, field) == {LET m == IF k > field THEN field ELSE k IN IF Odd(m) THEN m ELSE m - 1 : k \in SkyCells(FMul(size, AngComDeg(q, 1, z)), dtheta)}
\* comoving cells that a field of `deg` degrees needs at redshift z
Needed(q, z, deg, cell) == {IF Odd(k) THEN k ELSE k + 1 : k \in Wholes(FDiv(DegToC(q, deg, z), cell))}
\* the sky outside the box repeats it
Tile(n, i) == i % n
\* padding by p cells on every side repeats the box as well
PadSrc(n, p, i) == Mod2(i - p, n)
=============================================================================
