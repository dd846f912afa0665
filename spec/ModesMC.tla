------------------------------ MODULE ModesMC ------------------------------
(* Design model of the power spectrum: a periodic box with sides 2 or 4 (whose
   transform is exact in the Gaussian integers) is shifted and its axes are
   relabelled step by step.  The power of every mode must stay with that mode,
   so every binning by wavenumbers stays put; the transform conserves the
   power (Parseval) and is point symmetric; bins partition the modes.         *)
EXTENDS Modes
CONSTANTS Shape, Values, NB
VARIABLES sh, d, perm, P0, steps
Shape24 == <<2, 4>>
Shape222 == <<2, 2, 2>>
Shape42 == <<4, 2>>
vars == <<sh, d, perm, P0, steps>>
N == Size(Shape)
\* cosine and sine of t/N turns, exact because every phase is a multiple of a quarter turn
C4(t) == CASE t % 4 = 0 -> 1 [] t % 4 = 2 -> -1 [] OTHER -> 0
S4(t) == CASE t % 4 = 1 -> 1 [] t % 4 = 3 -> -1 [] OTHER -> 0
Sum(f) == FoldLeft(LAMBDA a, b : a + b, 0, f)
Re(s, x, i) == Sum([c \in 1..N |-> x[c] * C4((4 * PhaseNo(s, i, c)) \div N)])
Im(s, x, i) == Sum([c \in 1..N |-> x[c] * S4((4 * PhaseNo(s, i, c)) \div N)])
Pow(s, x, i) == Re(s, x, i) * Re(s, x, i) + Im(s, x, i) * Im(s, x, i)
Cell(s, co) == 1 + Sum([a \in DOMAIN s |-> co[a] * Stride(s, a)])
Coords(s, i) == [a \in DOMAIN s |-> Co(s, i, a)]
Shifted(s, x, a) == [i \in 1..N |-> x[Cell(s, [b \in DOMAIN s |-> IF b = a THEN (Co(s, i, b) + 1) % s[b] ELSE Co(s, i, b)])]]
Swap(f, a, b) == [c \in DOMAIN f |-> IF c = a THEN f[b] ELSE IF c = b THEN f[a] ELSE f[c]]
Init == /\ sh = Shape /\ perm = [a \in DOMAIN Shape |-> a] /\ steps = 0
        /\ d \in [1..N -> Values] /\ P0 = [i \in 1..N |-> Pow(Shape, d, i)]
Shift == \E a \in DOMAIN sh : d' = Shifted(sh, d, a) /\ UNCHANGED <<sh, perm, P0>>
Relabel == \E a, b \in DOMAIN sh : a < b /\ sh' = Swap(sh, a, b) /\ perm' = Swap(perm, a, b)
             /\ d' = [i \in 1..N |-> d[Cell(sh, Swap(Coords(Swap(sh, a, b), i), a, b))]] /\ UNCHANGED P0
Next == steps < 2 /\ steps' = steps + 1 /\ (Shift \/ Relabel)
Spec == Init /\ [][Next]_vars
\* the mode of the original box that mode i has become (axis a of the box now is axis perm[a] of the original one)
Orig(i) == Cell(Shape, [a \in DOMAIN Shape |-> Co(sh, i, CHOOSE b \in DOMAIN perm : perm[b] = a)])
PowerStays == \A i \in 1..N : Pow(sh, d, i) = P0[Orig(i)]
Parseval == Sum(P0) = N * Sum([c \in 1..N |-> d[c] * d[c]])
Mirror(s, i) == Cell(s, [a \in DOMAIN s |-> (s[a] - Co(s, i, a)) % s[a]])
PointSymmetric == (\A a \in DOMAIN sh : sh[a] % 2 = 0) => \A i \in 1..N : Pow(sh, d, i) = Pow(sh, d, Mirror(sh, i))
\* geometry of the modes, for box lengths that differ between the axes
Lof(s) == [a \in DOMAIN s |-> 10 * perm[a] + 3]
Geometry == steps # 0 \/ d # [i \in 1..N |-> 0] \/
  LET L == Lof(sh)  k == KTab(sh, L)  b == AutoEdges(L, k, NB, "linear") IN
  /\ Cardinality({i \in 1..N : IsZero(sh, i)}) = 1
  /\ \A i \in 1..N : IsZero(sh, i) <=> FEq(k[i], 0)
  /\ \A los \in 0..(Len(sh) - 1) :
       /\ Cardinality({i \in 1..N : PerpZero(sh, los, i)}) = sh[los + 1]
       /\ \A i \in 1..N : IsZero(sh, i) \/
            LET m == Mu(sh, L, k, los, FALSE, i)  kt == FDiv(K(sh, L, i, OtherAxes(sh, los)), k[i]) IN
              /\ FEq(Mu(sh, L, k, los, TRUE, i), FAbs(m)) /\ FLe(FAbs(m), 1)
              /\ FNear(FAdd(FMul(m, m), FMul(kt, kt)), 1, FLit("1e-12"), 0)
  \* the bins partition the modes between the first and the last edge
  /\ \A i \in 1..N : Cardinality({j \in 1..NB : Where(k[i], b[j], b[j + 1]) = "in"}) <= 1
  /\ \A i \in 1..N : (Where(k[i], b[1], b[NB + 1]) # "out") => \E j \in 1..NB : Where(k[i], b[j], b[j + 1]) # "out"
=============================================================================
