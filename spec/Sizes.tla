-------------------------------- MODULE Sizes --------------------------------
(* Size distributions.  A mask is a sequence of booleans on a grid with C-order
   indices; the opening by a structure is the union of its copies that fit into
   the mask, and the distribution of sizes is what successive openings remove.  *)
EXTENDS Modes
Three(sh) == IF Len(sh) = 2 THEN <<1, sh[1], sh[2]>> ELSE sh
\* offsets of the ball (disc) of radius n
Ball(dim, n) == {o \in (IF dim = 2 THEN {0} ELSE (0 - n)..n) \X ((0 - n)..n) \X ((0 - n)..n) : o[1] * o[1] + o[2] * o[2] + o[3] * o[3] <= n * n}
At(t, c) == 1 + (c[1] * t[2] + c[2]) * t[3] + c[3]
In(t, c) == c[1] >= 0 /\ c[1] < t[1] /\ c[2] >= 0 /\ c[2] < t[2] /\ c[3] >= 0 /\ c[3] < t[3]
Coord(t, i) == <<(i - 1) \div (t[2] * t[3]), ((i - 1) \div t[3]) % t[2], (i - 1) % t[3]>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
\* cells where the whole structure fits; cells of the copies there
Fits(t, mask, B) == {i \in DOMAIN mask : mask[i] /\ LET c == Coord(t, i) IN \A o \in B : LET d == Plus(c, o) IN In(t, d) /\ mask[At(t, d)]}
FitsAny(t, mask, B) == {i \in DOMAIN mask : LET c == Coord(t, i) IN \A o \in B : LET d == Plus(c, o) IN In(t, d) /\ mask[At(t, d)]}
Cover(t, S, B) == UNION {{At(t, d) : d \in {d \in {Plus(Coord(t, i), o) : o \in B} : In(t, d)}} : i \in S}
Opening(t, mask, B) == Cover(t, FitsAny(t, mask, B), B)
\* what is left after openings by balls of radius 0, 1, ..., n - 1, nothing after the first that empties the mask
Areas(dim, t, mask, n) ==
  LET A[r \in 0..n] == IF r = 0 THEN <<>> ELSE Append(A[r - 1], IF r > 1 /\ A[r - 1][r - 1] = 0 THEN 0 ELSE Cardinality(Opening(t, mask, Ball(dim, r - 1)))) IN A[n]
\* share of the region removed between radius r and r + 1; the last entry closes the list
Spectrum(a) == [r \in DOMAIN a |-> IF r = Len(a) THEN F(0) ELSE FDiv(a[r] - a[r + 1], IF a[1] = 0 THEN 1 ELSE a[1])]
\* ---- equal bins between the smallest and largest of the values (or half a unit around a single one)
SpanEdges(x, n) == LET lo == FMinOf(x)  hi == FMaxOf(x) IN IF FEq(lo, hi) THEN LinEdges(FSub(lo, FRat(1, 2)), FAdd(hi, FRat(1, 2)), n) ELSE LinEdges(lo, hi, n)
\* least and most values that may be counted in bin k (half open, the last one closed; values within rounding of an inner edge count either way)
InBin(e, k, v) == LET n == Len(e) - 1 IN
  IF (k > 1 /\ Close(v, e[k])) \/ (k < n /\ Close(v, e[k + 1])) THEN "tie"
  ELSE IF (k = 1 \/ FLt(e[k], v)) /\ (k = n \/ FLt(v, e[k + 1])) THEN "in" ELSE "out"
CountOk(e, k, x, c) == LET w == TLCEval([i \in DOMAIN x |-> InBin(e, k, x[i])])  s == Cardinality({i \in DOMAIN x : w[i] = "in"})  u == Cardinality({i \in DOMAIN x : w[i] = "tie"}) IN c >= s /\ c <= s + u
Log10(x) == FDiv(FLn(x), FLn(10))
\* radius of the ball (disc) with v cells
EffRadius(dim, v) == IF dim = 2 THEN FSqrt(FDiv(v, FDiv(Pi2, 2))) ELSE FExp(FDiv(FLn(FDiv(FMul(3, v), FMul(2, Pi2))), 3))
=============================================================================
