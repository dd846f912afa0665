-------------------------------- MODULE UvMC --------------------------------
(* Small interferometers on an integer plane observed over quarter turns:
   the coverage is assembled sample by sample; and masks act on images.      *)
EXTENDS Uv
CONSTANTS N, NA, Span, Turns
VARIABLES ants, twist, shift, step, hits, hitsP, hitsS, inside
vars == <<ants, twist, shift, step, hits, hitsP, hitsS, inside>>
Pos == {<<x, y>> : x \in 0..Span, y \in 0..Span}
Perms == {p \in [1..NA -> 1..NA] : \A i, j \in 1..NA : i # j => p[i] # p[j]}
Init == /\ ants \in [1..NA -> Pos] /\ twist \in Perms /\ shift \in {<<1, 0>>, <<2, 1>>}
        /\ step = 0 /\ hits = [i \in 1..N * N |-> 0] /\ hitsP = hits /\ hitsS = hits /\ inside = 0
Turned(b, q) == CASE q % 4 = 0 -> b [] q % 4 = 1 -> <<-b[2], b[1]>> [] q % 4 = 2 -> <<-b[1], -b[2]>> [] OTHER -> <<b[2], -b[1]>>
Base(A, t) == LET P == Pairs(NA) IN [b \in DOMAIN P |-> Turned(<<A[P[b][1]][1] - A[P[b][2]][1], A[P[b][1]][2] - A[P[b][2]][2]>>, t)]
Add(h, g) == [i \in DOMAIN h |-> h[i] + g[i]]
Observe == /\ step < Turns /\ step' = step + 1
           /\ hits' = Add(hits, Twice(N, Base(ants, step), TRUE))
           /\ hitsP' = Add(hitsP, Twice(N, Base([i \in 1..NA |-> ants[twist[i]]], step), TRUE))
           /\ hitsS' = Add(hitsS, Twice(N, Base([i \in 1..NA |-> <<ants[i][1] + shift[1], ants[i][2] + shift[2]>>], step), TRUE))
           /\ inside' = inside + Len(SelectSeq(Base(ants, step), LAMBDA s : Inside2(N, s)))
           /\ UNCHANGED <<ants, twist, shift>>
Spec == Init /\ [][Observe]_vars
Sh == <<N, N>>
Symmetric == \A i \in 1..N * N : hits[i] = hits[Neg(Sh, i)]
OrderFree == hits = hitsP
ShiftFree == hits = hitsS
AddsUp == FoldLeft(LAMBDA a, x : a + x, 0, hits) = 2 * inside
Mask == [i \in 1..N * N |-> IF hits[i] = 0 THEN 0 ELSE 1]
Image == [i \in 1..N * N |-> (i * i * 7) % 11]
\* masking an even coverage keeps exactly the sampled modes, and masking twice changes nothing more
Exact == step = Turns /\ shift = <<1, 0>> /\ (\A i \in 1..NA : twist[i] = i) => Even(Sh, Mask) = [i \in 1..N * N |-> F(Mask[i])] /\ LET A == Applied(Sh, Image, Mask) T == Transform(Sh, Image) IN
           \A i \in 1..N * N : A[i] = IF Mask[i] = 1 THEN T[i] ELSE <<FMul(T[i][1], 0), FMul(T[i][2], 0)>>
=============================================================================
