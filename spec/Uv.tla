---------------------------------- MODULE Uv ----------------------------------
(* uv coverage of an interferometer.  Antennas -> baselines in wavelengths ->
   tracks (Earth rotation, one sample per integration) -> cells of the periodic
   uv grid, cell 0 being zero baseline.  Counts are kept doubled, so that the
   average of a sample and its mirror stays an integer.
   A coverage acts on a real image as a real, even weight on its modes.      *)
EXTENDS Grid, Flt, SequencesExt
Mod(x, n) == ((x % n) + n) % n
\* ---- gridding ----
Inside2(n, s) == 2 * Abs(s[1]) <= n /\ 2 * Abs(s[2]) <= n
CellOf(n, s) == 1 + Mod(s[1], n) * n + Mod(s[2], n)
Mirror(s) == <<-s[1], -s[2]>>
\* doubled coverage counts of integer samples ss
Twice(n, ss, mirrored) ==
  LET put(h, s) == IF ~ Inside2(n, s) THEN h
                   ELSE LET h1 == [h EXCEPT ![CellOf(n, s)] = @ + (IF mirrored THEN 1 ELSE 2)]
                        IN IF mirrored THEN [h1 EXCEPT ![CellOf(n, Mirror(s))] = @ + 1] ELSE h1
  IN FoldLeft(put, [i \in 1..n * n |-> 0], ss)
\* ---- pairs and baselines ----
Pairs(na) == LET P[i \in 0..na] == IF i = 0 THEN <<>> ELSE P[i - 1] \o [j \in 1..(na - i) |-> <<i, i + j>>] IN P[na]
Lambda(nu) == FDiv(FDiv(FLit("2.99792458e10"), FMul(nu, FLit("1e6"))), 100)           \* metres, nu in MHz
Baselines(ants, nu) == LET l == Lambda(nu) P == Pairs(Len(ants)) IN
  [b \in DOMAIN P |-> [a \in 1..3 |-> FDiv(FSub(ants[P[b][1]][a], ants[P[b][2]][a]), l)]]
\* ---- Earth rotation ----
Rad(deg) == FMul(FDiv(FLit("3.141592653589793"), 180), deg)
HourAngle(t, dt, T) == Rad(FMul(15, FDiv(FAdd(FMul(FLit("-0.5"), FMul(T, 3600)), FMul(t, dt)), 3600)))    \* T in hours, dt in seconds, step t = 1..
Rotated(b, t, dt, T, dec) ==
  LET h == HourAngle(t, dt, T) c == FCos(h) s == FSin(h) cd == FCos(Rad(dec)) sd == FSin(Rad(dec)) IN
  <<FAdd(FMul(s, b[1]), FMul(c, b[2])),
    FAdd(FAdd(FNeg(FMul(FMul(sd, c), b[1])), FMul(FMul(sd, s), b[2])), FMul(cd, b[3])),
    FAdd(FSub(FMul(FMul(cd, c), b[1]), FMul(FMul(cd, s), b[2])), FMul(sd, b[3]))>>
Steps(T, dt) == FFloor(FDiv(FMul(T, 3600), dt))
\* integer grid positions <<x, y>> of every baseline at every step, step-major; "tie" when rounding is undecidable
Frac(x) == FAbs(FSub(FSub(x, F(FFloor(x))), FLit("0.5")))
Scaled(ants, nu, dt, T, dec, theta) ==
  LET B == Baselines(ants, nu) nb == Len(B) IN
  [q \in 1..Steps(T, dt) * nb |-> LET r == Rotated(B[1 + ((q - 1) % nb)], 1 + ((q - 1) \div nb), dt, T, dec) IN <<FMul(r[1], theta), FMul(r[2], theta)>>]
Ties(S) == \E q \in DOMAIN S : FLt(Frac(S[q][1]), FLit("1e-6")) \/ FLt(Frac(S[q][2]), FLit("1e-6"))
Samples(S) == [q \in DOMAIN S |-> <<FRint(S[q][1]), FRint(S[q][2])>>]
\* ---- weights on modes ----
Neg(sh, i) == LET P[a \in 0..Len(sh)] == IF a = 0 THEN 1 ELSE P[a - 1] + Mod(-Co(sh, i, a), sh[a]) * Stride(sh, a) IN P[Len(sh)]
Phase(sh, k, x) == LET n == Size(sh) P[a \in 0..Len(sh)] == IF a = 0 THEN 0 ELSE (P[a - 1] + Co(sh, k, a) * Co(sh, x, a) * (n \div sh[a])) % n IN P[Len(sh)]
Turn(n) == [t \in 1..n |-> LET p == FDiv(FMul(FMul(2, FLit("3.141592653589793")), t - 1), n) IN <<FCos(p), FSin(p)>>]
Transform(sh, d) == LET tt == Turn(Size(sh)) IN
  [k \in 1..Size(sh) |-> LET ph == [x \in 1..Size(sh) |-> tt[Phase(sh, k, x) + 1]] IN
     <<FDot(d, [x \in 1..Size(sh) |-> ph[x][1]]), FNeg(FDot(d, [x \in 1..Size(sh) |-> ph[x][2]]))>>]
\* what weight w on the modes of a real image amounts to once the real part is taken
Even(sh, w) == [k \in 1..Size(sh) |-> FDiv(FAdd(w[k], w[Neg(sh, k)]), 2)]
Applied(sh, d, w) == LET t == Transform(sh, d) e == Even(sh, w) IN [k \in 1..Size(sh) |-> <<FMul(t[k][1], e[k]), FMul(t[k][2], e[k])>>]
\* zero baseline is cell 0; squared distance to it on the periodic grid
Near0(n, x) == IF 2 * x > n THEN n - x ELSE x
Dist2(sh, i) == LET D[a \in 0..Len(sh)] == IF a = 0 THEN 0 ELSE D[a - 1] + Near0(sh[a], Co(sh, i, a)) * Near0(sh[a], Co(sh, i, a)) IN D[Len(sh)]
=============================================================================
