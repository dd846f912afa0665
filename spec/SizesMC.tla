------------------------------- MODULE SizesMC -------------------------------
(* Design model: a region growing one cell at a time on a small grid, measured
   with structures of every kind, symmetric or not, after each step.           *)
EXTENDS Sizes
CONSTANTS Nx, Ny, Nz, Cells
VARIABLES mask
T3 == <<Nx, Ny, Nz>>
Dim == IF Nx = 1 THEN 2 ELSE 3
N == Nx * Ny * Nz
Structs == TLCEval({Ball(Dim, 0), Ball(Dim, 1), {<<0, 0, 0>>, <<0, 0, 1>>}, {<<0, 0, 0>>, <<0, 1, 0>>, <<0, 1, 1>>}, {<<0, 0 - 1, 0>>, <<0, 0, 1>>}, {<<0, 1, 1>>}})
Init == mask = [i \in 1..N |-> FALSE]
Grow == Cardinality({i \in 1..N : mask[i]}) < Cells /\ \E i \in 1..N : ~ mask[i] /\ mask' = [mask EXCEPT ![i] = TRUE]
Spec == Init /\ [][Grow]_mask
On(m) == {i \in DOMAIN m : m[i]}
Of(S) == [i \in 1..N |-> i \in S]
\* an opening removes, removes at once all it will remove, and is monotonic
Removes == \A B \in Structs : Opening(T3, mask, B) \subseteq On(mask)
AtOnce == \A B \in Structs : LET W == Opening(T3, mask, B) IN Opening(T3, Of(W), B) = W
Monotonic == [][\A B \in Structs : Opening(T3, mask, B) \subseteq Opening(T3, mask', B)]_mask
\* only the shape of the structure counts, not where its origin is, as long as nothing sticks out of the grid
Origin == LET A == {<<0, 0, 0>>, <<0, 0, 1>>}  B == {<<0, 0, 0 - 1>>, <<0, 0, 0>>} IN Opening(T3, mask, A) = Opening(T3, mask, B)
\* what is left: everything, then what has cells with all neighbours, ...
Left == LET a == Areas(Dim, T3, mask, 3) IN a[1] = Cardinality(On(mask)) /\ \A r \in 1..2 : a[r + 1] <= a[r]
\* the spectrum has no negative entry and its entries sum to the share removed in total
Shares == LET a == Areas(Dim, T3, mask, 3)  s == Spectrum(a) IN (\A r \in DOMAIN s : FLe(0, s[r])) /\ (a[1] = 0 \/ FNear(FSum(s), FDiv(a[1] - a[3], a[1]), FLit("1e-12"), FLit("1e-12")))
\* mirroring the region mirrors what is left by a ball
Mir(i) == LET c == Coord(T3, i) IN At(T3, <<c[1], c[2], Nz - 1 - c[3]>>)
Mirror == LET B == Ball(Dim, 1) IN Opening(T3, [i \in 1..N |-> mask[Mir(i)]], B) = {Mir(i) : i \in Opening(T3, mask, B)}
\* every value is counted in some bin, in one only unless it sits on an edge
Values == {<<3>>, <<2, 5>>, <<1, 2, 4, 8, 16>>}
ASSUME \A x \in Values, n \in {1, 2, 4} : LET e == SpanEdges([i \in DOMAIN x |-> F(x[i])], n) IN
  \A i \in DOMAIN x : LET k == {b \in 1..n : InBin(e, b, F(x[i])) # "out"} IN k # {} /\ (Cardinality(k) = 1 \/ \A b \in k : InBin(e, b, F(x[i])) = "tie")
\* the volume of a ball with the effective radius
ASSUME \A v \in {1, 7, 33} : LET r == EffRadius(3, v) IN FNear(FMul(FRat(2, 3), FMul(Pi2, FMul(r, FMul(r, r)))), F(v), FLit("1e-12"), F(0))
=============================================================================
