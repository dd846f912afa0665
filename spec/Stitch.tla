------------------------------- MODULE Stitch -------------------------------
(* Superpixels put together to regions: a superpixel belongs to a region when
   the mean of its cells lies below a threshold taken from the distribution of
   all the means.                                                              *)
EXTENDS Stats
FMaxOf(s) == FoldLeft(LAMBDA a, b : FMax(a, b), s[1], s)
FMinOf(s) == FoldLeft(LAMBDA a, b : FMin(a, b), s[1], s)
\* the mean of every label (in the order of R), and the label number of every cell
LabelMeans(x, lab, R) == TLCEval([k \in DOMAIN R |-> Mean(Cells(x, lab, R[k]))])
NumberOf(R, l) == CHOOSE k \in DOMAIN R : R[k] = l
\* ---- histogram of m in the bins between the edges, which span all of m (so the outer bins are open)
Binned(m, ed) == LET n == Len(ed) - 1 IN TLCEval([b \in 1..n |-> Cardinality({i \in DOMAIN m : (b = 1 \/ FLe(ed[b], m[i])) /\ (b = n \/ FLt(m[i], ed[b + 1]))})])
Top(h) == CHOOSE b \in DOMAIN h : \A c \in DOMAIN h : h[c] < h[b] \/ (h[c] = h[b] /\ b <= c)
\* bins higher than both neighbours; the first bin counts as a peak when it is the highest of all
Peaks(h) == LET g == IF Top(h) = 1 THEN <<0>> \o h ELSE h IN {i \in 2..Len(g) - 1 : g[i] > g[i - 1] /\ g[i] > g[i + 1]}
MidOf(ed, b) == FDiv(FAdd(ed[b], ed[b + 1]), 2)
\* one peak: the bin below it farthest (in number) from the straight line between the first bin and the peak
Kinks(h, ed) ==
  LET p == Top(h)  m0 == FDiv(h[p] - h[1], FSub(ed[p], ed[1]))
      d == TLCEval([b \in 1..p - 1 |-> FAbs(FSub(h[b] - h[1], FMul(m0, FSub(ed[b], ed[1]))))])
      top == FMaxOf(d) IN {b \in 1..p - 1 : FNear(d[b], top, FLit("1e-9"), FLit("1e-9"))}
\* ---- Otsu: the split of the means (sorted into nb bins) with the largest variance between its two sides; at the centre of the last bin of the lower side
OtsuBin(m, nb, i) == LET lo == FMinOf(m)  hi == FMaxOf(m)  b == FFloor(FDiv(FMul(FSub(m[i], lo), nb), FSub(hi, lo))) IN IF b >= nb THEN nb - 1 ELSE b
OtsuCentre(m, nb, b) == LET lo == FMinOf(m)  hi == FMaxOf(m) IN FAdd(lo, FMul(FDiv(FSub(hi, lo), nb), FRat(2 * b + 1, 2)))
\* a mean on the border of two bins may be counted in either
OtsuUnsure(m, nb) == \E i \in DOMAIN m : LET u == FDiv(FMul(FSub(m[i], FMinOf(m)), nb), FSub(FMaxOf(m), FMinOf(m))) IN FNear(u, FRint(u), F(0), FLit("1e-7")) /\ FRint(u) \in 1..nb - 1
OtsuSplits(m, nb) ==
  LET bn == TLCEval([i \in DOMAIN m |-> OtsuBin(m, nb, i)])  c == TLCEval([i \in DOMAIN m |-> OtsuCentre(m, nb, bn[i])])
      top == CHOOSE b \in {bn[i] : i \in DOMAIN m} : \A j \in DOMAIN m : bn[j] <= b
      B == {bn[i] : i \in DOMAIN m} \ {top}
      between(b) == LET low == SelectSeq([i \in DOMAIN m |-> i], LAMBDA i : bn[i] <= b)  high == SelectSeq([i \in DOMAIN m |-> i], LAMBDA i : bn[i] > b)
                        d == FSub(Mean([k \in DOMAIN low |-> c[low[k]]]), Mean([k \in DOMAIN high |-> c[high[k]]])) IN FMul(Len(low) * Len(high), FMul(d, d))
      v == TLCEval([b \in B |-> between(b)]) IN
  {b \in B : \A q \in B : FLe(v[q], FMul(v[b], FAdd(1, FLit("1e-9"))))}
Otsu(m, nb) == {OtsuCentre(m, nb, b) : b \in OtsuSplits(m, nb)}
\* ---- the thresholds the distribution of the means m leaves open (one, but for ties)
Flat(m) == \A i \in DOMAIN m : FEq(m[i], m[1])
Single(h) == Cardinality(Peaks(h)) = 1 /\ Top(h) > 1
Thresholds(m, ed) == LET h == Binned(m, ed) IN IF Single(h) THEN {MidOf(ed, b) : b \in Kinks(h, ed)} ELSE Otsu(m, 256)
\* ---- which superpixels lie below
Below(m, th) == {k \in DOMAIN m : FLt(m[k], th)}
\* ---- borders: cells of a plane next to a cell of another label
Next4(sh, i, j) == LET a == Co(sh, i, 1) - Co(sh, j, 1)  b == Co(sh, i, 2) - Co(sh, j, 2) IN (a \in {0 - 1, 1} /\ b = 0) \/ (b \in {0 - 1, 1} /\ a = 0)
Near8(sh, i, j) == LET a == Co(sh, i, 1) - Co(sh, j, 1)  b == Co(sh, i, 2) - Co(sh, j, 2) IN a \in {0 - 1, 0, 1} /\ b \in {0 - 1, 0, 1}
OnBorder(sh, lab, i) == \E j \in 1..Size(sh) : Near8(sh, i, j) /\ lab[j] # lab[i]
=============================================================================
