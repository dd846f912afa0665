------------------------------ MODULE StatsMC ------------------------------
(* Design model: samples split into labelled parts.  Samples change part, parts
   are renamed and merged one after another; whatever the history, what is
   combined from the parts is what the pooled samples give.  A small box whose
   slices have their mean removed along one axis after the other keeps every
   mean removed before.                                                        *)
EXTENDS Stats
CONSTANTS N, Labels, Steps
VARIABLES x, lab, box, done, steps
vars == <<x, lab, box, done, steps>>
Sh == <<2, 2>>
Vals == -1..2
Init == /\ x \in [1..N -> Vals] /\ lab \in [1..N -> Labels] /\ box = [i \in 1..4 |-> x[1 + ((i - 1) % N)] * i] /\ done = {} /\ steps = 0
Move == \E i \in 1..N, l \in Labels : lab' = [lab EXCEPT ![i] = l] /\ UNCHANGED <<x, box, done>>
Rename == \E p \in Permutations(Labels) : lab' = [i \in 1..N |-> p[lab[i]]] /\ UNCHANGED <<x, box, done>>
Merge == \E a, b \in Labels : a # b /\ lab' = [i \in 1..N |-> IF lab[i] = a THEN b ELSE lab[i]] /\ UNCHANGED <<x, box, done>>
Flatten == \E a \in {1, 2} : a \notin done /\ done' = done \cup {a}
             /\ box' = [i \in 1..4 |-> FSub(box[i], SliceMeans(Sh, box, a)[Co(Sh, i, a) + 1])] /\ UNCHANGED <<x, lab>>
Next == steps < Steps /\ steps' = steps + 1 /\ (Move \/ Rename \/ Merge \/ Flatten)
Spec == Init /\ [][Next]_vars
Close(a, b) == FNear(a, b, FLit("1e-12"), FLit("1e-12"))
R == Ranked(lab)
Parts == [k \in DOMAIN R |-> Cells(x, lab, R[k])]
Var(p) == IF Len(p) = 1 THEN 0 ELSE Var1(p)
Pooled == LET m == [k \in DOMAIN R |-> Mean(Parts[k])]  v == [k \in DOMAIN R |-> Var(Parts[k])]  n == [k \in DOMAIN R |-> Len(Parts[k])] IN
            /\ Total(n) = N /\ Close(CombMean(m, n), Mean(x)) /\ Close(CombVar(m, v, n), Var1(x))
\* combining two parts first and the rest after gives the same
Associative == LET n == [k \in DOMAIN R |-> Len(Parts[k])]  m == [k \in DOMAIN R |-> Mean(Parts[k])]  v == [k \in DOMAIN R |-> Var(Parts[k])] IN
  Len(R) < 3 \/ LET ab == CombMean(<<m[1], m[2]>>, <<n[1], n[2]>>)  vab == CombVar(<<m[1], m[2]>>, <<v[1], v[2]>>, <<n[1], n[2]>>)
                IN Close(CombVar(<<ab, m[3]>>, <<vab, v[3]>>, <<n[1] + n[2], n[3]>>), CombVar(m, v, n))
Labelled == /\ \A i \in 1..N : R[Rank(lab, i)] = lab[i]
            /\ \A k \in 1..(Len(R) - 1) : R[k] < R[k + 1]
            /\ FEq(FSum([i \in 1..N |-> Mean(Parts[Rank(lab, i)])]), FSum([i \in 1..N |-> Mean(Parts[Rank(lab, i)])]))
            /\ Close(FSum([i \in 1..N |-> Mean(Parts[Rank(lab, i)])]), FSum(x))
Flat == \A a \in done, j \in 0..1 : Close(Mean(Slice(Sh, box, a, j)), 0)
\* shifting the samples moves only the mean; mirroring them changes the sign of the skewness
Shapes == FLt(Var1(x), FLit("1e-9")) \/
  LET y == [i \in 1..N |-> x[i] + 7]  z == [i \in 1..N |-> -x[i]] IN
    Close(Skew(y), Skew(x)) /\ Close(Kurt(y), Kurt(x)) /\ Close(Skew(z), FNeg(Skew(x))) /\ Close(Kurt(z), Kurt(x))
=============================================================================
