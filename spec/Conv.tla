-------------------------------- MODULE Conv --------------------------------
(* Convolution as a direct sum on n-dimensional grids, and smoothing kernels.
   Along one axis, output cell x of a signal of n cells convolved with a
   kernel of m cells takes from signal position Src(..., x, j) the weight of
   kernel cell j; positions off the grid are given by the boundary rule.
   The centre of a kernel of m cells is cell m \div 2.                        *)
EXTENDS Grid, Flt, SequencesExt
NoCell == -1
Mod2(x, p) == ((x % p) + p) % p
Ext(bnd, n, p) ==
  CASE bnd \in {"circular", "wrap"} -> Mod2(p, n)
    [] bnd = "nearest" -> IF p < 0 THEN 0 ELSE IF p >= n THEN n - 1 ELSE p
    [] bnd = "reflect" -> IF n = 1 THEN 0 ELSE LET q == Mod2(p, 2 * (n - 1)) IN IF q < n THEN q ELSE 2 * (n - 1) - q
    [] bnd = "mirror" -> LET q == Mod2(p, 2 * n) IN IF q < n THEN q ELSE 2 * n - 1 - q
    [] OTHER -> IF p < 0 \/ p >= n THEN NoCell ELSE p
Mode(mode, bnd) == IF bnd = "circular" /\ mode # "valid" THEN "same" ELSE mode
Bnd(mode, bnd) == IF mode = "valid" THEN "constant" ELSE bnd
OutLen(mode, n, m) == IF mode = "full" THEN n + m - 1 ELSE IF mode = "valid" THEN n - m + 1 ELSE n
Start(mode, m) == IF mode = "full" THEN 0 ELSE IF mode = "valid" THEN m - 1 ELSE m \div 2
Src(mode, bnd, n, m, x, j) == Ext(Bnd(mode, bnd), n, x + Start(Mode(mode, bnd), m) - j)
OutShape(mode, bnd, s1, s2) == [a \in DOMAIN s1 |-> OutLen(Mode(mode, bnd), s1[a], s2[a])]
\* flat index (1-based) of the signal cell that output cell i weights with kernel cell j; 0 when there is none
SrcFlat(mode, bnd, s1, s2, so, i, j) ==
  LET p == [a \in DOMAIN s1 |-> Src(mode, bnd, s1[a], s2[a], Co(so, i, a), Co(s2, j, a))]
      P[a \in 0..Len(s1)] == IF a = 0 THEN 1 ELSE P[a - 1] + p[a] * Stride(s1, a)
  IN IF \E a \in DOMAIN s1 : p[a] = NoCell THEN 0 ELSE P[Len(s1)]
\* the terms of the direct sum: values of the signal under each kernel cell
Under(mode, bnd, s1, s2, so, d, i) == [j \in 1..Size(s2) |-> LET f == SrcFlat(mode, bnd, s1, s2, so, i, j) IN IF f = 0 THEN 0 ELSE d[f]]
ConvAt(mode, bnd, s1, s2, so, d, k, i) == FDot(Under(mode, bnd, s1, s2, so, d, i), k)
\* ---- kernels (before normalisation), as functions of the offset from the centre cell ----
Off(sh, i, a) == Co(sh, i, a) - (sh[a] \div 2)
R2(sh, i) == LET P[a \in 0..Len(sh)] == IF a = 0 THEN 0 ELSE P[a - 1] + Off(sh, i, a) * Off(sh, i, a) IN P[Len(sh)]
Norm(w) == LET t == FSum(w) IN [i \in DOMAIN w |-> FDiv(w[i], t)]
Gauss(sh, sigma) == Norm([i \in 1..Size(sh) |-> FExp(FNeg(FDiv(R2(sh, i), FMul(2, FMul(sigma, sigma)))))])
Sigma(fwhm) == FDiv(fwhm, FMul(2, FSqrt(FMul(2, FLn(2)))))
\* top hat: the cells from -w/2 (rounded towards the centre) up to but not including w/2 (rounded away from it)
TopLow(w) == FFloor(FDiv(w, 2))
TopHigh(w) == LET h == FDiv(w, 2) f == FFloor(h) IN IF FEq(f, h) THEN f ELSE f + 1
InTop(o, w) == o >= -TopLow(w) /\ o < TopHigh(w)
Cube(sh, w) == Norm([i \in 1..Size(sh) |-> IF \A a \in DOMAIN sh : sh[a] = 1 \/ InTop(Off(sh, i, a), w) THEN 1 ELSE 0])
Ball(sh, w) == Norm([i \in 1..Size(sh) |-> IF FLe(FSqrt(R2(sh, i)), FDiv(w, 2)) THEN 1 ELSE 0])
=============================================================================
