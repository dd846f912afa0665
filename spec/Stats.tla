------------------------------- MODULE Stats -------------------------------
(* Statistics of samples, of the slices of a box and of labelled cells.        *)
EXTENDS Grid, Flt, SequencesExt
\* the entries of x at the indices that satisfy P, in order
Pick(x, P(_)) == LET ix == SelectSeq([i \in DOMAIN x |-> i], P) IN [m \in DOMAIN ix |-> x[ix[m]]]
Mean(x) == FDiv(FSum(x), Len(x))
Central(x, p) == LET m == Mean(x)
                     pw(d) == CASE p = 2 -> FMul(d, d) [] p = 3 -> FMul(d, FMul(d, d)) [] p = 4 -> FMul(FMul(d, d), FMul(d, d)) IN
                 FSum([i \in DOMAIN x |-> pw(FSub(x[i], m))])
Var0(x) == FDiv(Central(x, 2), Len(x))
Var1(x) == FDiv(Central(x, 2), Len(x) - 1)
Skew(x) == FDiv(FDiv(Central(x, 3), Len(x)), FPow(Var1(x), FRat(3, 2)))
Kurt(x) == FDiv(FDiv(Central(x, 4), Len(x)), FMul(Var1(x), Var1(x)))
MaxAbs(x) == FoldLeft(LAMBDA a, b : FMax(a, FAbs(b)), F(0), x)
MaxOf(x) == FoldLeft(LAMBDA a, b : FMax(a, b), x[1], x)
\* means, variances (over n-1) and sizes of parts put together
Total(n) == FoldLeft(LAMBDA a, b : a + b, 0, n)
CombMean(m, n) == FDiv(FDot(m, n), Total(n))
CombVar(m, v, n) == LET c == CombMean(m, n) IN
  FDiv(FSum([i \in DOMAIN m |-> FAdd(FMul(n[i] - 1, v[i]), FMul(n[i], FMul(FSub(m[i], c), FSub(m[i], c))))]), Total(n) - 1)
\* the j-th (0-based) slice perpendicular to axis a (1-based) of a box with values x
Slice(sh, x, a, j) == Pick(x, LAMBDA i : Co(sh, i, a) = j)
SliceMeans(sh, x, a) == [j \in 1..sh[a] |-> Mean(Slice(sh, x, a, j - 1))]
Axis(sh, los) == IF los < 0 THEN los + Len(sh) + 1 ELSE los + 1
\* the labels in increasing order, and the cells of one of them
Ranked(lab) == LET s == {lab[i] : i \in DOMAIN lab} IN [k \in 1..Cardinality(s) |-> CHOOSE l \in s : Cardinality({q \in s : q < l}) = k - 1]
Cells(x, lab, l) == Pick(x, LAMBDA i : lab[i] = l)
Rank(lab, i) == Cardinality({lab[j] : j \in {j \in DOMAIN lab : lab[j] < lab[i]}}) + 1
\* two sequences of numbers with the same entries, in whatever order
Count(x, v) == Cardinality({i \in DOMAIN x : FEq(x[i], v)})
SameBag(x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : Count(x, x[i]) = Count(y, x[i])
=============================================================================
