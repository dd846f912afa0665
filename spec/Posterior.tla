----------------------------- MODULE Posterior -----------------------------
(* Summaries of a posterior given by weighted samples (or by probabilities on
   a grid): moments, credible intervals and diagnostics against a true value.
   Also what is drawn of a box: a slice of it, the histogram of its cells.      *)
EXTENDS Stats
Norm(w) == TLCEval(LET s == FSum(w) IN [i \in DOMAIN w |-> FDiv(w[i], s)])
Column(X, p) == TLCEval([i \in DOMAIN X |-> X[i][p]])
WMean(x, w) == FDot(x, w)
\* reliability weights (sum 1)
WCov(x, y, w) == LET mx == WMean(x, w)  my == WMean(y, w) IN
  FDiv(FSum([i \in DOMAIN x |-> FMul(w[i], FMul(FSub(x[i], mx), FSub(y[i], my)))]), FSub(1, FDot(w, w)))
\* the order of the samples, and the weight accumulated in that order
Order(x) == SetToSortSeq(DOMAIN x, LAMBDA i, j : FLt(x[i], x[j]) \/ (FEq(x[i], x[j]) /\ i < j))
Cumulate(w, o) == FoldLeft(LAMBDA a, i : Append(a, IF a = <<>> THEN w[i] ELSE FAdd(a[Len(a)], w[i])), <<>>, o)
Last0(s, v) == Cardinality({k \in DOMAIN s : FLe(s[k], v)})     \* s increasing: index of the last entry <= v
Line(a, b, u, v, t) == FAdd(u, FMul(FSub(v, u), FDiv(FSub(t, a), FSub(b, a))))
\* piecewise linear through (xs[k], ys[k]), constant beyond the ends
Interp(xs, ys, t) == LET k == Last0(xs, t) IN
  IF k = 0 THEN ys[1] ELSE IF k = Len(xs) THEN ys[k] ELSE Line(xs[k], xs[k + 1], ys[k], ys[k + 1], t)
\* for samples without ties
Sorted(x, w) == LET o == TLCEval(Order(x)) IN [v |-> TLCEval([k \in DOMAIN o |-> x[o[k]]]), c |-> TLCEval(Cumulate(w, o))]
Quantile(s, q) == Interp(s.c, s.v, q)
CdfAt(s, t) == Interp(s.v, s.c, t)
\* in general: the weight of what lies at or below v; where a quantile may lie
UpTo(x, w, v) == FSum([i \in DOMAIN x |-> IF FLe(x[i], v) THEN w[i] ELSE 0])
Distinct(x) == TLCEval(LET o == Order(x) IN FoldLeft(LAMBDA a, i : IF a # <<>> /\ FEq(a[Len(a)], x[i]) THEN a ELSE Append(a, x[i]), <<>>, o))
Eps == FLit("1e-9")
Levels(x, w) == LET d == Distinct(x) IN [v |-> d, c |-> TLCEval([k \in DOMAIN d |-> UpTo(x, w, d[k])]),
                  top |-> TLCEval([k \in DOMAIN d |-> FoldLeft(LAMBDA a, i : IF FEq(x[i], d[k]) THEN FMax(a, w[i]) ELSE a, 0, [i \in DOMAIN x |-> i])])]
\* number of levels wholly below the weight q
Wholly(l, q) == Cardinality({k \in DOMAIN l.v : FLt(l.c[k], q)})
Clip(k, l) == IF k < 1 THEN 1 ELSE IF k > Len(l.v) THEN Len(l.v) ELSE k
QuantileMay(l, q, r) ==
  LET b == Clip(Wholly(l, FAdd(q, Eps)) + 1, l)  a == Clip(Wholly(l, FSub(q, Eps)), l)
      inside == b > 1 /\ FLe(FAdd(FAdd(l.c[b - 1], l.top[b]), Eps), q) /\ Clip(Wholly(l, FSub(q, Eps)) + 1, l) = b IN
  /\ FLe(l.v[a], r) /\ FLe(r, l.v[b])
  /\ inside => FEq(r, l.v[b])
CdfMay(l, t, r) == LET k == Last0(l.v, t) IN
  /\ FLe(FSub(IF k = 0 THEN 0 ELSE l.c[k], Eps), r) /\ FLe(r, FAdd(l.c[Clip(k + 1, l)], Eps))
\* determinant and the quadratic form of the inverse
Minor(M, i, j) == LET n == Len(M) - 1 IN [a \in 1..n |-> [b \in 1..n |-> M[IF a < i THEN a ELSE a + 1][IF b < j THEN b ELSE b + 1]]]
RECURSIVE Det(_)
Det(M) == IF Len(M) = 1 THEN M[1][1]
          ELSE FSum([j \in 1..Len(M) |-> FMul(IF j % 2 = 1 THEN M[1][j] ELSE FNeg(M[1][j]), Det(Minor(M, 1, j)))])
Cofactor(M, i, j) == LET d == IF Len(M) = 1 THEN F(1) ELSE Det(Minor(M, i, j)) IN IF (i + j) % 2 = 0 THEN d ELSE FNeg(d)
InverseForm(M, v) == FDiv(FSum([i \in 1..Len(M) |-> FSum([j \in 1..Len(M) |-> FMul(FMul(v[i], v[j]), Cofactor(M, i, j))])]), Det(M))
TwoPiE == FMul(FLit("6.283185307179586"), FExp(1))
Entropy(M) == FDiv(FAdd(FMul(Len(M), FLn(TwoPiE)), FLn(Det(M))), 2)
\* cells certainly and possibly in the bin from a to b (the last one includes its end)
InBin(x, a, b, slack) ==
  [sure |-> Cardinality({i \in DOMAIN x : FLe(FAdd(a, slack), x[i]) /\ FLt(x[i], FSub(b, slack))}),
   may  |-> Cardinality({i \in DOMAIN x : FLe(FSub(a, slack), x[i]) /\ FLe(x[i], FAdd(b, slack))})]
Even(a, b, n) == [k \in 1..(n + 1) |-> FAdd(a, FMul(FSub(b, a), FRat(k - 1, n)))]
MinOf(x) == FoldLeft(LAMBDA a, b : FMin(a, b), x[1], x)
=============================================================================
