------------------------------ MODULE FiltersMC ------------------------------
(* Design model: a small real cube of a foreground and a signal, to which the
   filters are applied in every order, any number of times.                    *)
EXTENDS Filters
CONSTANTS Nd, Values, Steps
VARIABLES map, first, w
vars == <<map, first, w>>
Shp == <<Nd, Nd, Nd>>
N == Size(Shp)
ct == TLCEval(CosTab(N))
sn == TLCEval(SinTab(N))
\* the filters: two wedges and a barrel, on a box of side 1 with no cosmology
Mus == {1, 2}
W(b) == TLCEval([x \in 1..N |-> LET k == (x - 1) % Nd  j == ((x - 1) \div Nd) % Nd  i == (x - 1) \div (Nd * Nd) IN
  IF b = 3 THEN Barrel(Nd, F(Nd), FLit("0.3"), i, j).v ELSE Diabolo(Nd, F(Nd), FRat(b, 3), FALSE, FLit("0.01"), i, j, k).v])
Wt == TLCEval([b \in 1..3 |-> W(b)])
Fold(v) == TLCEval([i \in 1..N |-> FDiv(FAdd(v[i], v[Opposite(Shp, i)]), 2)])
Ft == TLCEval([b \in 1..3 |-> Fold(Wt[b])])
Phase == TLCEval([i \in 1..N |-> [x \in 1..N |-> 1 + PhaseNo(Shp, i, x)]])
Cs == TLCEval([i \in 1..N |-> [x \in 1..N |-> ct[Phase[i][x]]]])
Sn == TLCEval([i \in 1..N |-> [x \in 1..N |-> sn[Phase[i][x]]]])
Re == TLCEval([x \in 1..N |-> [i \in 1..N |-> Cs[i][x]]])
Im == TLCEval([x \in 1..N |-> [i \in 1..N |-> Sn[i][x]]])
Pass(d, v) == LET A == TLCEval([i \in 1..N |-> FMul(v[i], FDot(d, Cs[i]))])  B == TLCEval([i \in 1..N |-> FMul(v[i], FDot(d, Sn[i]))]) IN
  TLCEval([x \in 1..N |-> FDiv(FAdd(FDot(A, Re[x]), FDot(B, Im[x])), N)])
\* a map: a plane wave of foreground, a dot of signal
Start(a, b) == [x \in 1..N |-> FAdd(FMul(a, FCos(FDiv(FMul(Pi2, Co(Shp, x, 3)), Nd))), IF x = b THEN F(1) ELSE F(0))]
Init == \E a \in Values, b \in {1, N \div 2} : first = Start(a, b) /\ map = Start(a, b) /\ w = <<>>
Apply == \E b \in 1..3 : Len(w) < Steps /\ map' = Pass(map, Ft[b]) /\ w' = Append(w, b) /\ UNCHANGED first
Spec == Init /\ [][Apply]_vars
Near(a, b) == FNear(a, b, FLit("1e-9"), FLit("1e-9"))
Same(a, b) == \A x \in 1..N : Near(a[x], b[x])
Energy(d) == FSum([x \in 1..N |-> FMul(d[x], d[x])])
\* the order of the filters does not matter: the map is the first one times the product of the weights
Commute == LET v == [i \in 1..N |-> LET P[k \in 0..Len(w)] == IF k = 0 THEN F(1) ELSE FMul(P[k - 1], Ft[w[k]][i]) IN P[Len(w)]] IN Same(map, Pass(first, v))
\* filters never add
Shrinks == FLe(Energy(map), FAdd(Energy(first), FLit("1e-9")))
\* on odd cubes the weights are even, so that filtering twice is filtering once
Idempotent == Nd % 2 = 1 => \A b \in 1..3 : (w # <<>> /\ w[Len(w)] = b) => Same(map, Pass(map, Ft[b]))
ASSUME \A i \in 1..N : FLe(Wt[1][i], Wt[2][i])      \* a smaller mu opens the wedge further
ASSUME Nd % 2 = 1 => \A b \in 1..3, i \in 1..N : FEq(Wt[b][i], Wt[b][Opposite(Shp, i)])
\* chunks: every channel in the middle of its own, none missing; the taper symmetric and highest there
ASSUME \A c \in 3..9, s \in 1..12 : LET ch == Chunk(c, s) IN
  /\ ch[(c \div 2) + 1] = s /\ Len(ch) = c /\ \A t \in 1..c - 1 : ch[t + 1] = ch[t] + 1
  /\ Reference(c, s, 12) = (IF ch[c] > 12 THEN 12 ELSE ch[c]) /\ Reference(c, s, 12) >= s
  /\ \A t \in 0..c - 1 : Near(Blackman(c, t), Blackman(c, c - 1 - t))
ASSUME \A c \in 4..9 : LET b == BufferSteps(c, FRat(1, 10)) IN b >= 0 /\ b < c
\* beams fall off, and the Airy pattern vanishes at its null; J1(1), J1(10)
Radii == [i \in 1..12 |-> FRat(i - 1, 8)]
ASSUME \A kind \in {"step", "gaussian", "sigmoid"}, i \in 1..11 : FLe(BeamAt(kind, Radii[i + 1], F(1)), BeamAt(kind, Radii[i], F(1)))
ASSUME FNear(BeamAt("gaussian", FDiv(F(1), FLit("2.372")), F(1)), FRat(1, 2), FLit("1e-3"), F(0)) /\ FLt(BeamAt("bessel", F(1), F(1)), FLit("1e-8")) /\ Near(BeamAt("sigmoid", FRat(1, 2), F(1)), FRat(1, 2))
ASSUME Near(J1(F(1)), FLit("0.44005058574493355")) /\ Near(J1(F(10)), FLit("0.043472746168861424")) /\ Near(J1(F(40)), FLit("0.12603831803758503"))
=============================================================================
