------------------------------- MODULE Fields -------------------------------
(* Gaussian random fields.  White complex noise m (one number per mode) is
   coloured by the square root of the requested spectrum; the field is the real
   part of its transform, so mode i and its opposite share their two numbers.   *)
EXTENDS Modes
\* opposite mode (a mode at minus half an even side is its own opposite along that axis)
Opposite(sh, i) ==
  LET P[a \in 0..Len(sh)] == IF a = 0 THEN 1 ELSE P[a - 1] + ((2 * (sh[a] \div 2) - Co(sh, i, a)) % sh[a]) * Stride(sh, a) IN P[Len(sh)]
\* amplitude of a white mode: <|F|^2> = P N^2 / V
Colour(sh, L, p) == FMul(FSqrt(FDiv(p, Volume(L))), Size(sh))
\* mode i of the real part
RealMode(m, sh, i) == LET a == m[i]  b == m[Opposite(sh, i)] IN <<FDiv(FAdd(a[1], b[1]), 2), FDiv(FSub(a[2], b[2]), 2)>>
\* linear interpolation of a tabulated spectrum, nothing outside
TableP(ks, ps, k) == IF FLt(k, ks[1]) \/ FLt(ks[Len(ks)], k) THEN F(0) ELSE
  LET j == CHOOSE j \in 1..Len(ks) - 1 : FLe(ks[j], k) /\ FLe(k, ks[j + 1])  t == FDiv(FSub(k, ks[j]), FSub(ks[j + 1], ks[j])) IN FAdd(FMul(FSub(1, t), ps[j]), FMul(t, ps[j + 1]))
\* the end of the table, where rounding decides whether there is power
TableEdge(ks, k) == FNear(k, ks[1], FLit("1e-9"), F(0)) \/ FNear(k, ks[Len(ks)], FLit("1e-9"), F(0))
=============================================================================
