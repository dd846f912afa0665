------------------------------ MODULE NoiseMC ------------------------------
(* Design model: a ring of uv cells observed night after night.  A night is a
   number of hours with a coverage; the noise of a mode is what the nights
   combined by inverse variance leave.                                         *)
EXTENDS Noise
CONSTANTS N, Nights, Hours, Counts
VARIABLES nights, info, hours, cover
vars == <<nights, info, hours, cover>>
Patterns == [1..N * N -> Counts]
Opposite(u) == [i \in 1..N * N |-> u[Opp(N, i)]]
Init == nights = <<>> /\ info = [i \in 1..N * N |-> 0] /\ hours = 0 /\ cover \in {u \in Patterns : u = Opposite(u)}
\* a night may be spent on the whole layout or on a half of it (coverage doubled: integers)
Night == \E h \in Hours, f \in {1, 2} :
  /\ Len(nights) < Nights
  /\ nights' = Append(nights, <<h, f>>) /\ hours' = hours + h
  /\ info' = [i \in 1..N * N |-> info[i] + Info(h, f * cover[i])]
  /\ UNCHANGED cover
Spec == Init /\ [][Night]_vars
S == FLit("2500")  Dp == FRat(1, 10)
Var(h, u, i) == IF u[i] = 0 THEN F(0) ELSE LET a == FMul(Depth(S, Dp, h), Weight(TRUE, u[i])) IN FMul(a, a)
Near(a, b) == FNear(a, b, FLit("1e-11"), FLit("1e-13"))
\* inverse variances add up: the nights combined are one observation with the hours and the coverage summed
Combined == nights # <<>> => \A i \in 1..N * N :
  IF cover[i] = 0 THEN info[i] = 0 /\ FEq(Weight(TRUE, 0), 0)
  ELSE LET inv == FSum([k \in DOMAIN nights |-> FDiv(1, Var(nights[k][1], [j \in 1..N * N |-> nights[k][2] * cover[j]], i))]) IN
       /\ Near(FDiv(1, inv), Var(info[i], [j \in 1..N * N |-> 1], i))
       /\ ((\A k \in DOMAIN nights : nights[k][2] = 1) => Near(FDiv(1, inv), Var(hours, cover, i)))
\* the integration time is bookkeeping only
StepFree == \A t \in {1, 10, 600} : hours > 0 => Near(FMul(Visibility(S, Dp, t), FSqrt(FDiv(FDiv(t, 3600), hours))), Depth(S, Dp, hours))
\* maps are real: opposite modes carry the same power; nothing where neither is sampled; nothing else vanishes
Even2 == \A nat \in BOOLEAN, i \in 1..N * N : LET p == Power(N, nat, cover, i) IN
  /\ Near(p, Power(N, nat, cover, Opp(N, i)))
  /\ FEq(p, 0) = (cover[i] = 0)
\* with an even coverage natural weighting divides the uniform power by the coverage
Natural == \A i \in 1..N * N : cover[i] > 0 => Near(FMul(cover[i], Power(N, TRUE, cover, i)), Power(N, FALSE, cover, i))
ASSUME \A n \in 1..9 : \A k \in {"blackmanharris", "blackman", "barthann", "bartlett", "gaussian", "hamming", "hann"} :
   LET w == [i \in 0..n - 1 |-> Taper(k, F(2), n, i)] IN
   /\ \A i \in 0..n - 1 : Near(w[i], w[n - 1 - i]) /\ FLe(FLit("-1e-12"), w[i]) /\ FLe(w[i], FLit("1.000000001"))
   /\ \A i \in 0..(n \div 2) - 1 : i + 1 <= (n - 1) \div 2 => FLe(w[i], FAdd(w[i + 1], FLit("1e-12")))
   /\ n % 2 = 1 => Near(TaperAt(k, F(2), n, 0), 1) /\ \A i \in 1..n - 1 : Near(TaperAt(k, F(2), n, i), TaperAt(k, F(2), n, n - i))
\* a table of a power law is the power law, inside and beyond
ASSUME \A p \in {-2, 1, 3} : \A nu \in {40, 100, 130, 200, 350} :
   Near(TableAt(<<F(50), F(125), F(200)>>, [i \in 1..3 |-> FExp(FMul(p, FDiv(<<50, 125, 200>>[i], 100)))], nu), FExp(FMul(p, FDiv(nu, 100))))
ASSUME \A D \in {10, 40} : Near(FMul(4, SEFD([kB |-> F(1), jy |-> F(1)], 100, F(1), 2 * D)), SEFD([kB |-> F(1), jy |-> F(1)], 100, F(1), D))
=============================================================================
