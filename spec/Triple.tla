------------------------------- MODULE Triple -------------------------------
(* Higher-order and real-space clustering statistics: bispectra over closed
   triangles of modes, correlation functions of spectra and of point sets, and
   the response of the spectrum of sub-boxes to their mean.                     *)
EXTENDS Modes
Half(sh, a) == sh[a] \div 2
\* flat index of the mode that closes a triangle with modes i and j (modulo the grid)
Closing(sh, i, j) ==
  LET co(a) == (Half(sh, a) - Freq(sh, i, a) - Freq(sh, j, a)) % sh[a]
      P[a \in 0..Len(sh)] == IF a = 0 THEN 1 ELSE P[a - 1] + (IF co(a) < 0 THEN co(a) + sh[a] ELSE co(a)) * Stride(sh, a) IN P[Len(sh)]
\* modes of a shell: closer than half the width to its centre
Shell(kt, c, w) == {i \in DOMAIN kt : FLt(FAbs(FSub(kt[i], c)), FDiv(w, 2))}
ShellTie(kt, c, w) == \E i \in DOMAIN kt : FNear(FAbs(FSub(kt[i], c)), FDiv(w, 2), FLit("1e-9"), FLit("1e-12"))
Re3(a, b, c) == LET re == FSub(FMul(a[1], b[1]), FMul(a[2], b[2]))  im == FAdd(FMul(a[1], b[2]), FMul(a[2], b[1])) IN FSub(FMul(re, c[1]), FMul(im, c[2]))
Triangles(sh, A, B, C) == {<<i, j>> \in A \X B : Closing(sh, i, j) \in C}
\* mean of delta delta delta over the closed triangles; t: transform by mode
MeanTriple(sh, t, T) == LET s == SetToSeq(T) IN FDiv(FSum([m \in DOMAIN s |-> Re3(t[s[m][1]], t[s[m][2]], t[Closing(sh, s[m][1], s[m][2])])]), Len(s))
Unit3(sh, L) == LET v == Volume(L)  n == F(Size(sh)) IN FDiv(FMul(v, v), FMul(n, FMul(n, n)))
Third(k1, k2, a) == FSqrt(FMax(0, FSum(<<FMul(k1, k1), FMul(k2, k2), FMul(FMul(FMul(2, k1), k2), FCos(a))>>)))
\* ---- correlation function of a spectrum: 4 pi int k^2 P sinc(kr) dk, trapezoids between the given wavenumbers
SincOf(x) == IF FEq(x, 0) THEN F(1) ELSE FDiv(FSin(x), x)
Xi(k, p, r) == LET f == TLCEval([i \in DOMAIN k |-> FMul(FMul(FMul(k[i], k[i]), p[i]), SincOf(FMul(k[i], r)))]) IN
  FMul(FMul(2, Pi2), FSum([i \in 1..Len(k) - 1 |-> FMul(FSub(k[i + 1], k[i]), FDiv(FAdd(f[i], f[i + 1]), 2))]))
Distances(L, n, m, kind) == IF kind = "log" THEN LogEdges(FDiv(FMul(2, L), n), FDiv(L, 2), m - 1) ELSE LinEdges(FDiv(FMul(2, L), n), FDiv(L, 2), m - 1)
\* ---- pairs of points
Dist(a, b) == FSqrt(FSum([i \in DOMAIN a |-> LET d == FSub(a[i], b[i]) IN FMul(d, d)]))
Within(D) == [i \in 1..Len(D) |-> [j \in 1..i - 1 |-> Dist(D[i], D[j])]]
Flatten(s) == FoldLeft(LAMBDA a, x : a \o x, <<>>, s)
Between(D, R) == Flatten([i \in 1..Len(D) |-> [j \in 1..Len(R) |-> Dist(D[i], R[j])]])
\* pairs in bin b; the last bin is closed
Count(ds, e, b) == Len(SelectSeq(ds, LAMBDA x : FLe(e[b], x) /\ (FLt(x, e[b + 1]) \/ (b = Len(e) - 1 /\ FEq(x, e[b + 1])))))
LandySzalay(dd, dr, rr, nd, nr) == LET a == FDiv(dd, FDiv(FMul(nd, nd - 1), 2))  c == FDiv(rr, FDiv(FMul(nr, nr - 1), 2))  x == FDiv(dr, FMul(nd, nr)) IN FDiv(FAdd(FSub(a, FMul(2, x)), c), c)
\* ---- sub-boxes: spectra p[i][b] and means m[i]
CubeMean(s) == FDiv(FSum(s), Len(s))
Response(p, m, b, norm) ==
  LET B == CubeMean([i \in DOMAIN p |-> FMul(p[i][b], m[i])]) IN
  IF norm THEN FDiv(FDiv(B, CubeMean([i \in DOMAIN p |-> p[i][b]])), CubeMean([i \in DOMAIN m |-> FMul(m[i], m[i])])) ELSE B
=============================================================================
