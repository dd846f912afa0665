------------------------------ MODULE Regions ------------------------------
(* Masks of regions: thresholds of fields, clusters of values, painted balls.  *)
EXTENDS Stats
\* ---- thresholds
Side(x, th, upper) == [i \in DOMAIN x |-> IF upper THEN FLe(x[i], th) ELSE FLe(th, x[i])]
MinOf(x) == FoldLeft(LAMBDA a, b : FMin(a, b), x[1], x)
\* bins of the histogram between the extremes: unit bins for whole numbers
TriBins(x, nb, whole) == IF whole THEN FRint(FSub(MaxOf(x), MinOf(x))) + 1 ELSE nb
BinNo(x, n, whole, v) == IF whole THEN FRint(FSub(v, MinOf(x))) + 1
                         ELSE LET b == FFloor(FDiv(FMul(FSub(v, MinOf(x)), n), FSub(MaxOf(x), MinOf(x)))) + 1 IN IF b > n THEN n ELSE b
BinCentre(x, n, whole, b) == IF whole THEN FAdd(MinOf(x), b - 1) ELSE FAdd(MinOf(x), FDiv(FMul(FSub(MaxOf(x), MinOf(x)), FRat(2 * b - 1, 2)), n))
\* the bins farthest below the straight line from the peak of the histogram to the end of its longer tail
TriBest(h) ==
  LET n == Len(h)  used == {b \in 1..n : h[b] > 0}
      peak == CHOOSE b \in 1..n : \A c \in 1..n : h[c] < h[b] \/ (h[c] = h[b] /\ b <= c)
      low == CHOOSE b \in used : \A c \in used : b <= c  high == CHOOSE b \in used : \A c \in used : c <= b
      left == ~ (peak - low < high - peak)
      w == IF left THEN peak - low ELSE high - peak
      span == IF left THEN low..(peak - 1) ELSE (peak + 1)..high
      dist(b) == h[peak] * (IF left THEN b - low ELSE high - b) - w * h[b] IN
  {b \in span : \A c \in span : dist(c) <= dist(b)}
\* possible thresholds (several only when bins are equally far)
TriThresholds(x, nb, whole) ==
  IF FEq(MaxOf(x), MinOf(x)) THEN <<x[1]>>
  ELSE LET n == TriBins(x, nb, whole)  bin == [i \in DOMAIN x |-> BinNo(x, n, whole, x[i])]
           best == SetToSortSeq(TriBest([b \in 1..n |-> Cardinality({i \in DOMAIN x : bin[i] = b})]), LAMBDA p, q : p < q) IN
       [k \in DOMAIN best |-> BinCentre(x, n, whole, best[k])]
Sorted(x) == SortSeq(x, LAMBDA p, q : FLt(p, q))
Median(x) == LET s == Sorted(x)  n == Len(x) IN IF n % 2 = 1 THEN s[(n + 1) \div 2] ELSE FDiv(FAdd(s[n \div 2], s[n \div 2 + 1]), 2)
\* ---- clusters of values: every value at least as near to the mean of its own group (slack: how far the algorithm may stop from its fixed point)
Nearest(x, g, n) ==
  LET m == [k \in 1..n |-> Mean(Cells(x, g, k))]  slack == FMul(FLit("0.05"), FSqrt(Var0(x))) IN
  \A i \in DOMAIN x, k \in 1..n : FLe(FAbs(FSub(x[i], m[g[i]])), FAdd(FAbs(FSub(x[i], m[k])), slack))
\* ---- painted balls in a periodic box
Gap(n, a, b) == LET d == (a - b) % n IN IF 2 * d > n THEN n - d ELSE d
Dist2(sh, i, j) == LET D[a \in 0..Len(sh)] == IF a = 0 THEN 0 ELSE D[a - 1] + Gap(sh[a], Co(sh, i, a), Co(sh, j, a)) * Gap(sh[a], Co(sh, i, a), Co(sh, j, a)) IN D[Len(sh)]
\* r2: the square of the radius, rounded down (distances are whole)
BallCells(sh, c, r2) == {i \in 1..Size(sh) : Dist2(sh, i, c) <= r2}
AddBall(sh, m, c, r2) == [i \in DOMAIN m |-> m[i] \/ Dist2(sh, i, c) <= r2]
Fits(sh, m, c, r2) == \A i \in DOMAIN m : Dist2(sh, i, c) <= r2 => ~ m[i]
Marked(m) == Cardinality({i \in DOMAIN m : m[i]})
CellAt(sh, co) == LET D[a \in 0..Len(sh)] == IF a = 0 THEN 1 ELSE D[a - 1] + (co[a] % sh[a]) * Stride(sh, a) IN D[Len(sh)]
\* a kernel of shape ks (centre at ks div 2) added around position pos
Painted(sh, x, pos, ks, kv) ==
  FoldLeft(LAMBDA acc, q : LET c == CellAt(sh, [a \in DOMAIN sh |-> pos[a] + Co(ks, q, a) - (ks[a] \div 2)]) IN [acc EXCEPT ![c] = FAdd(@, kv[q])],
           x, [q \in 1..Size(ks) |-> q])
=============================================================================
