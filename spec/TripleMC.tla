------------------------------ MODULE TripleMC ------------------------------
(* Design model: small periodic fields written cell by cell, with the bispectrum
   judged against its definition in real space; and point sets growing point by
   point.                                                                       *)
EXTENDS Triple
CONSTANTS Sh, Vals, Width, Places
VARIABLES d, data, rand
vars == <<d, data, rand>>
Shp == IF Sh = 33 THEN <<3, 3>> ELSE <<Sh>>
Lx == [a \in DOMAIN Shp |-> F(1)]
N == Size(Shp)
Init == d = <<>> /\ data = <<>> /\ rand = <<>>
Fill == Len(d) < N /\ data = <<>> /\ rand = <<>> /\ \E v \in Vals : d' = Append(d, v) /\ UNCHANGED <<data, rand>>
Point == /\ d = <<>> /\ UNCHANGED d
         /\ \E p \in 0..Places : (Len(data) < 3 /\ data' = Append(data, <<F(p)>>) /\ rand' = rand)
                              \/ (Len(rand) < 3 /\ rand' = Append(rand, <<F(p)>>) /\ data' = data)
Spec == Init /\ [][Fill \/ Point]_vars
ct == TLCEval(CosTab(N))
st == TLCEval(SinTab(N))
T(x) == TLCEval([i \in 1..N |-> DFT(Shp, ct, st, x, i)])
kt == TLCEval(KTab(Shp, Lx))
Near(a, b) == FNear(a, b, FLit("1e-9"), FLit("1e-9"))
Full == Len(d) = N
Sets == {Shell(kt, c, Width) : c \in {FMul(0, Pi2), FMul(1, Pi2), FMul(2, Pi2)}}
\* sum over triangles of three shells = sum over cells of the product of the filtered fields
Filtered(t, S, x) == FDiv(FSum([i \in 1..N |-> IF i \notin S THEN F(0) ELSE LET p == 1 + PhaseNo(Shp, i, x) IN FSub(FMul(t[i][1], ct[p]), FMul(t[i][2], st[p]))]), N)
FilteredIm(t, S, x) == FDiv(FSum([i \in 1..N |-> IF i \notin S THEN F(0) ELSE LET p == 1 + PhaseNo(Shp, i, x) IN FAdd(FMul(t[i][1], st[p]), FMul(t[i][2], ct[p]))]), N)
RealSpace == Full => LET t == T(d) IN \A A, B, C \in Sets : LET R == Triangles(Shp, A, B, C) IN
  R # {} => Near(FMul(MeanTriple(Shp, t, R), Cardinality(R)),
                 FMul(FMul(N, N), FSum([x \in 1..N |-> Re3(<<Filtered(t, A, x), FilteredIm(t, A, x)>>, <<Filtered(t, B, x), FilteredIm(t, B, x)>>, <<Filtered(t, C, x), FilteredIm(t, C, x)>>)])))
\* neither the order of the sides nor a shift of the field matters; the sign follows the field
Symmetries == Full => LET t == T(d)  u == T([i \in 1..N |-> d[1 + (i % N)]])  w == T([i \in 1..N |-> 0 - 2 * d[i]]) IN
  \A A, B, C \in Sets : LET R == Triangles(Shp, A, B, C) IN R # {} =>
    LET m == MeanTriple(Shp, t, R) IN
    /\ Cardinality(R) = Cardinality(Triangles(Shp, C, A, B)) /\ Near(m, MeanTriple(Shp, t, Triangles(Shp, C, A, B)))
    /\ (Len(Shp) = 1 => Near(m, MeanTriple(Shp, u, R)))
    /\ Near(MeanTriple(Shp, w, R), FMul(-8, m))
\* point sets: every pair in one bin; identical sets are uncorrelated apart from the self pairs of the cross counts
Edges == [i \in 1..4 |-> FMul(FRat(Places, 3), i - 1)]
Pairs == LET w == Flatten(Within(data))  x == Between(data, rand) IN
  /\ Len(w) = (Len(data) * (Len(data) - 1)) \div 2 /\ Len(x) = Len(data) * Len(rand)
  /\ Count(w, Edges, 1) + Count(w, Edges, 2) + Count(w, Edges, 3) = Len(w)
  /\ Count(x, Edges, 1) + Count(x, Edges, 2) + Count(x, Edges, 3) = Len(x)
ASSUME \A r \in {0, 1, 3} : LET k == [i \in 1..401 |-> FDiv(i - 1, 100)] IN
  FNear(Xi(k, [i \in DOMAIN k |-> F(1)], r), FMul(FMul(2, Pi2), IF r = 0 THEN FDiv(64, 3) ELSE FDiv(FSub(FSin(4 * r), FMul(4 * r, FCos(4 * r))), r * r * r)), FLit("1e-3"), F(0))
=============================================================================
