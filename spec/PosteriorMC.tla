---------------------------- MODULE PosteriorMC ----------------------------
(* Design model: weighted samples arrive one by one, in any order, weights are
   rescaled, equal neighbours are merged.  What the summary says must not
   depend on any of it.                                                        *)
EXTENDS Posterior, Integers
CONSTANTS MaxN, Vals, Ws
VARIABLES x, w, scale, base
vars == <<x, w, scale, base>>
\* base: the samples as a bag, [value -> list of weights]
Init == x = <<>> /\ w = <<>> /\ scale = 1 /\ base = [v \in Vals |-> 0]
Add == Len(x) < MaxN /\ \E v \in Vals, k \in Ws, at \in 0..Len(x) :
         /\ x' = InsertAt(x, at + 1, v) /\ w' = InsertAt(w, at + 1, k * scale) /\ base' = [base EXCEPT ![v] = @ + k] /\ UNCHANGED scale
Rescale == scale = 1 /\ scale' = 3 /\ w' = [i \in DOMAIN w |-> 3 * w[i]] /\ UNCHANGED <<x, base>>
Next == Add \/ Rescale
Spec == Init /\ [][Next]_vars
Close(a, b) == FNear(a, b, FLit("1e-12"), FLit("1e-12"))
W == Norm(w)
Total0 == FoldLeft(LAMBDA a, v : a + base[v], 0, SetToSeq(Vals))
MeanOfBag == Len(x) = 0 \/ Close(WMean(x, W), FDiv(FoldLeft(LAMBDA a, v : a + base[v] * v, 0, SetToSeq(Vals)), Total0))
LevelsOfBag == Len(x) = 0 \/ LET l == Levels(x, W) IN
  /\ \A k \in DOMAIN l.v : Close(l.c[k], FDiv(FoldLeft(LAMBDA a, v : a + IF v <= l.v[k] THEN base[v] ELSE 0, 0, SetToSeq(Vals)), Total0))
  /\ Close(l.c[Len(l.v)], 1)
\* the quantiles of the walk through the sorted samples lie where the levels allow, are nested and inside the range
Qs == <<FLit("0.025"), FLit("0.16"), FLit("0.5"), FLit("0.84"), FLit("0.975")>>
Quantiles == Len(x) = 0 \/ LET s == Sorted(x, W)  l == Levels(x, W)  q == [k \in 1..5 |-> Quantile(s, Qs[k])] IN
  /\ \A k \in 1..5 : QuantileMay(l, Qs[k], q[k])
  /\ \A k \in 1..4 : FLe(q[k], q[k + 1])
  /\ FLe(MinOf(x), q[1]) /\ FLe(q[5], MaxOf(x))
Cdf == Len(x) = 0 \/ LET s == Sorted(x, W)  l == Levels(x, W) IN
  \A v \in Vals : CdfMay(l, v, CdfAt(s, v)) /\ (v \notin {x[i] : i \in DOMAIN x} \/ Close(CdfAt(s, v), UpTo(x, W, v)))
\* covariance of the samples with their squares: symmetric, not negative
Pairs == Len(x) < 2 \/ LET y == [i \in DOMAIN x |-> x[i] * x[i]]
                           C == <<<<WCov(x, x, W), WCov(x, y, W)>>, <<WCov(y, x, W), WCov(y, y, W)>>>> IN
  /\ Close(C[1][2], C[2][1]) /\ FLe(0, C[1][1]) /\ FLe(FLit("-1e-9"), Det(C))
  /\ FLt(Det(C), FLit("1e-6")) \/ Close(InverseForm(C, <<C[1][1], C[1][2]>>), C[1][1])
=============================================================================
