----------------------------- MODULE StitchMC -----------------------------
(* Design model: cells are handed from one superpixel to another and change
   value; whatever the superpixels, the threshold lies between means, regions
   are whole superpixels and grow with the threshold, and names of superpixels
   do not matter.                                                              *)
EXTENDS Stitch
CONSTANTS N, Labels, Vals, Steps
VARIABLES x, lab, steps
vars == <<x, lab, steps>>
Init == x \in [1..N -> Vals] /\ lab \in [1..N -> Labels] /\ steps = 0
Hand == \E i \in 1..N, l \in Labels : lab' = [lab EXCEPT ![i] = l] /\ UNCHANGED x
Change == \E i \in 1..N, v \in Vals : x' = [x EXCEPT ![i] = v] /\ UNCHANGED lab
Next == steps < Steps /\ steps' = steps + 1 /\ (Hand \/ Change)
Spec == Init /\ [][Next]_vars
R == Ranked(lab)
M == LabelMeans(x, lab, R)
Edges(n) == [b \in 1..n + 1 |-> FAdd(FMinOf(M), FMul(b - 1, FDiv(FSub(FMaxOf(M), FMinOf(M)), n)))]
NoTwoAlike == ~ Flat(M)
\* every mean in exactly one bin
AllBinned == NoTwoAlike => \A n \in {3, 5} : FEq(FSum(Binned(M, Edges(n))), Len(M))
\* a threshold below the peak and inside the range
Between == NoTwoAlike => \A n \in {3, 5} : LET T == Thresholds(M, Edges(n)) IN T # {} /\ \A th \in T : FLe(FMinOf(M), th) /\ FLt(th, FMaxOf(M))
Splits == NoTwoAlike => \A th \in Otsu(M, 16) : (\E k \in DOMAIN M : FLe(M[k], FAdd(th, FDiv(FSub(FMaxOf(M), FMinOf(M)), 32)))) /\ (\E k \in DOMAIN M : FLt(th, M[k]))
\* two groups far apart are split between them
TwoGroups == (NoTwoAlike /\ \A k \in DOMAIN M : FEq(M[k], FMinOf(M)) \/ FEq(M[k], FMaxOf(M))) => OtsuSplits(M, 16) = {0}
Nested == \A a, b \in DOMAIN M : FLe(M[a], M[b]) => Below(M, M[a]) \subseteq Below(M, M[b])
Renamed == \A p \in Permutations(Labels) :
   LET l2 == [i \in 1..N |-> p[lab[i]]]  R2 == Ranked(l2)  M2 == LabelMeans(x, l2, R2) IN
   /\ SameBag(M, M2) /\ \A i \in 1..N : FEq(M2[NumberOf(R2, l2[i])], M[NumberOf(R, lab[i])])
=============================================================================
