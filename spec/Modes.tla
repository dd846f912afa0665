------------------------------- MODULE Modes -------------------------------
(* Fourier modes of periodic boxes.  A mode is a cell (flat index) of the
   transformed array; its integer frequency along axis a is its coordinate
   minus (side \div 2), so the zero mode sits at side \div 2 on every axis.
   Wavenumbers use each axis' own box length.  The transform itself is the
   defining sum, with the phase kept as an exact integer multiple of 1/N.    *)
EXTENDS Grid, Flt, SequencesExt
Pi2 == FMul(2, FLit("3.141592653589793"))
Freq(sh, i, a) == Co(sh, i, a) - (sh[a] \div 2)
Kc(sh, L, i, a) == FDiv(FMul(Pi2, Freq(sh, i, a)), L[a])
IsZero(sh, i) == \A a \in DOMAIN sh : Freq(sh, i, a) = 0
K(sh, L, i, axes) == FSqrt(FSum([m \in DOMAIN axes |-> LET c == Kc(sh, L, i, axes[m]) IN FMul(c, c)]))
AllAxes(sh) == [a \in DOMAIN sh |-> a]
KTab(sh, L) == [i \in 1..Size(sh) |-> K(sh, L, i, AllAxes(sh))]
Volume(L) == LET V[a \in 0..Len(L)] == IF a = 0 THEN F(1) ELSE FMul(V[a - 1], L[a]) IN V[Len(L)]
\* phase of cell x in mode i, in units of 1/N of a turn
PhaseNo(sh, i, x) ==
  LET n == Size(sh)
      P[a \in 0..Len(sh)] == IF a = 0 THEN 0 ELSE (P[a - 1] + Freq(sh, i, a) * Co(sh, x, a) * (n \div sh[a])) % n
  IN P[Len(sh)]
CosTab(n) == [t \in 1..n |-> FCos(FDiv(FMul(Pi2, t - 1), n))]
SinTab(n) == [t \in 1..n |-> FSin(FDiv(FMul(Pi2, t - 1), n))]
\* <<Re, Im>> of the transform of d at mode i
DFT(sh, ct, st, d, i) ==
  LET ph == [x \in 1..Size(sh) |-> PhaseNo(sh, i, x) + 1]
  IN <<FDot(d, [x \in 1..Size(sh) |-> ct[ph[x]]]), FNeg(FDot(d, [x \in 1..Size(sh) |-> st[ph[x]]]))>>
\* cross power of two fields at mode i (the auto power when a = b)
PowerAt(sh, L, ct, st, a, b, auto, i) ==
  LET fa == DFT(sh, ct, st, a, i)  fb == IF auto THEN fa ELSE DFT(sh, ct, st, b, i)
  IN FDiv(FMul(FAdd(FMul(fa[1], fb[1]), FMul(fa[2], fb[2])), Volume(L)), FMul(Size(sh), Size(sh)))
\* ---- bins ----
Eps == FLit("1e-10")
Close(x, y) == FNear(x, y, Eps, FLit("1e-13"))
\* where x lies relative to [lo, hi): "in", "out" or "tie" (too close to an edge for rounding to be decided)
Where(x, lo, hi) == IF Close(x, lo) \/ Close(x, hi) THEN "tie" ELSE IF FLt(lo, x) /\ FLt(x, hi) THEN "in" ELSE "out"
LinEdges(lo, hi, n) == [i \in 1..(n + 1) |-> FAdd(lo, FMul(FDiv(FSub(hi, lo), n), i - 1))]
LogEdges(lo, hi, n) == [i \in 1..(n + 1) |-> FExp(FAdd(FLn(lo), FMul(FDiv(FSub(FLn(hi), FLn(lo)), n), i - 1)))]
FMaxOf(s) == FoldLeft(LAMBDA a, b : FMax(a, b), s[1], s)
FMinOf(s) == FoldLeft(LAMBDA a, b : FMin(a, b), s[1], s)
\* edges of the documented automatic bins of the spherical spectrum
AutoEdges(L, k, n, kind) ==
  LET lo == FDiv(Pi2, FMinOf(L))  hi == FMaxOf(k) IN IF kind = "linear" THEN LinEdges(lo, hi, n) ELSE LogEdges(lo, hi, n)
MixedEdges(L, k, n, bp) ==
  LET lo == FDiv(Pi2, FMinOf(L))  hi == FMaxOf(k)
  IN SelectSeq(LinEdges(lo, hi, n), LAMBDA x : FLt(x, bp)) \o SelectSeq(LogEdges(lo, hi, n), LAMBDA x : FLt(bp, x))
\* ---- one bin against the modes of the box ----
\* w[i] \in {"in", "tie", "out"} for every mode; the bin reports `n` modes and the value `val`;
\* Value(sel) is the value the bin has for the modes sel (a sequence of flat indices)
Sel(w, c) == SelectSeq([i \in DOMAIN w |-> i], LAMBDA i : w[i] = c)
Mean(P, sel) == FDiv(FSum([m \in DOMAIN sel |-> P[sel[m]]]), Len(sel))
MaxTies == 8
BinOk(w, n, val, Value(_), Agree(_, _, _)) ==
  LET sure == Sel(w, "in")  ties == Sel(w, "tie") IN
  /\ n >= Len(sure) /\ n <= Len(sure) + Len(ties)
  /\ Len(ties) > MaxTies \/
     \E s \in SUBSET (1..Len(ties)) :
        /\ Cardinality(s) = n - Len(sure)
        /\ LET sel == sure \o SetToSeq({ties[m] : m \in s})
           IN IF n = 0 THEN FIsNaN(val) ELSE Agree(val, Value(sel), sel)
\* where a value known exactly (cosine 0 or +-1) lies: half open, the last bin closed
WhereExact(x, lo, hi, last) == IF FLe(lo, x) /\ (FLt(x, hi) \/ (last /\ FEq(x, hi))) THEN "in" ELSE "out"
Both(a, b) == IF a = "out" \/ b = "out" THEN "out" ELSE IF a = "in" /\ b = "in" THEN "in" ELSE "tie"
\* cosine to axis `los` (0-based) and the transverse wavenumber
OtherAxes(sh, los) == SelectSeq([a \in DOMAIN sh |-> a], LAMBDA a : a # los + 1)
PerpZero(sh, los, i) == \A a \in DOMAIN sh : a # los + 1 => Freq(sh, i, a) = 0
Mu(sh, L, k, los, absolute, i) ==
  LET f == Freq(sh, i, los + 1) IN
  IF f = 0 THEN F(0)
  ELSE IF PerpZero(sh, los, i) THEN F(IF absolute \/ f > 0 THEN 1 ELSE -1)
  ELSE LET m == FDiv(Kc(sh, L, i, los + 1), k[i]) IN IF absolute THEN FAbs(m) ELSE m
MuExact(sh, los, i) == Freq(sh, i, los + 1) = 0 \/ PerpZero(sh, los, i)
Legendre(l, m) ==
  LET m2 == FMul(m, m) IN
  IF l = 0 THEN F(1) ELSE IF l = 2 THEN FDiv(FSub(FMul(3, m2), 1), 2)
  ELSE FDiv(FAdd(FSub(FMul(35, FMul(m2, m2)), FMul(30, m2)), 3), 8)
=============================================================================
