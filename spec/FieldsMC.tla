------------------------------ MODULE FieldsMC ------------------------------
(* Design model: every draw of a small white field (each number -1 or 1, drawn
   one after the other), so that expectations are exact averages over draws.    *)
EXTENDS Fields
CONSTANTS Sd, Draws
VARIABLES re, im
vars == <<re, im>>
Shp == IF Sd = 22 THEN <<2, 2>> ELSE IF Sd = 23 THEN <<2, 3>> ELSE <<Sd>>
N == Size(Shp)
Init == re = <<>> /\ im = <<>>
Draw == \E v \in Draws : (Len(re) < N /\ re' = Append(re, v) /\ im' = im) \/ (Len(re) = N /\ Len(im) < N /\ im' = Append(im, v) /\ re' = re)
Spec == Init /\ [][Draw]_vars
ct == TLCEval(CosTab(N))
sn == TLCEval(SinTab(N))
Near(a, b) == FNear(a, b, FLit("1e-10"), FLit("1e-10"))
\* a spectrum that depends on |k| only
Ptab == TLCEval([i \in 1..N |-> LET k == K(Shp, [a \in DOMAIN Shp |-> F(1)], i, AllAxes(Shp)) IN FAdd(1, FMul(2, k))])
P(i) == Ptab[i]
Ctab == TLCEval([i \in 1..N |-> Colour(Shp, [a \in DOMAIN Shp |-> F(1)], P(i))])
M(s, w) == [i \in 1..N |-> LET c == Ctab[i] IN <<FMul(c, s[i]), FMul(c, w[i])>>]
\* the field in space: real part of the inverse transform
Field(m) == [x \in 1..N |-> FDiv(FSum([i \in 1..N |-> LET p == 1 + PhaseNo(Shp, i, x) IN FSub(FMul(m[i][1], ct[p]), FMul(m[i][2], sn[p]))]), N)]
Full == Len(im) = N
\* opposites are opposites, with the same spectrum; the field's modes are those of the real part
Hermitian == \A i \in 1..N : Opposite(Shp, Opposite(Shp, i)) = i /\ FEq(P(i), P(Opposite(Shp, i)))
Agree(m, f) == \A i \in 1..N : LET d == DFT(Shp, ct, sn, f, i)  r == RealMode(m, Shp, i) IN Near(d[1], r[1]) /\ Near(d[2], r[2])
Coloured == Full => Agree(M(re, im), Field(M(re, im)))
\* average over all draws: P N^2 / V, exactly (draw number d: bit j gives the sign of number j)
Sign(d, j) == IF (d \div 2 ^ (j - 1)) % 2 = 1 THEN 1 ELSE 0 - 1
Drawn(d) == [j \in 1..N |-> <<FMul(Ctab[j], Sign(d, j)), FMul(Ctab[j], Sign(d, N + j))>>]
PowerOf(d, i) == LET r == RealMode(Drawn(d), Shp, i) IN FAdd(FMul(r[1], r[1]), FMul(r[2], r[2]))
ASSUME N <= 4 => \A i \in 1..N : FNear(FDiv(FSum([d \in 1..2 ^ (2 * N) |-> PowerOf(d - 1, i)]), 2 ^ (2 * N)), FMul(P(i), N * N), FLit("1e-10"), F(0))
=============================================================================
