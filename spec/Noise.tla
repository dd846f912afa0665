------------------------------- MODULE Noise -------------------------------
(* Thermal noise of a radio interferometer.  q holds the constants in force
   (H0, Om, lam, c, nu0 as in Cosmo, the Boltzmann constant kB, the light speed
   cSI and the jansky jy in SI units).  The noise of one visibility follows the
   radiometer equation; a mode of the map averages hours * coverage of them.   *)
EXTENDS Cosmo, Grid, SequencesExt
\* ---- the telescope
DefaultT(nu) == FAdd(FMul(60, FPow(FDiv(300, nu), FLit("2.55"))), 100)
DefaultEp(nu) == IF FLt(110, nu) THEN LET r == FDiv(110, nu) IN FMul(r, r) ELSE F(1)
Area(ep, D) == FMul(ep, FMul(PiF, FMul(FDiv(D, 2), FDiv(D, 2))))
SEFD(q, T, ep, D) == FDiv(FDiv(FMul(FMul(2, q.kB), T), Area(ep, D)), q.jy)
\* log-linear interpolation in an increasing table, straight on beyond its ends
TableAt(nus, vals, nu) ==
  LET n == Len(nus)  k == CHOOSE i \in 1..n - 1 : (i = 1 \/ FLe(nus[i], nu)) /\ (i = n - 1 \/ FLt(nu, nus[i + 1]))
      l(i) == FLn(vals[i])  t == FDiv(FSub(nu, nus[k]), FSub(nus[k + 1], nus[k])) IN
  FExp(FAdd(FMul(FSub(1, t), l(k)), FMul(t, l(k + 1))))
\* noise of one visibility, in microjansky; channel width in MHz, time in s
Visibility(sefd, depth, secs) == FDiv(FMul(FLit("1e6"), sefd), FSqrt(FMul(FMul(2, FMul(depth, FLit("1e6"))), secs)))
\* all baselines of na antennas for some hours
Image(sefd, depth, secs, hours, na) ==
  FDiv(FDiv(Visibility(sefd, depth, secs), FSqrt(FDiv(FMul(na, FSub(na, 1)), 2))), FSqrt(FDiv(FMul(3600, hours), secs)))
\* ---- kelvin and jansky: mK per pixel to microjansky per pixel
PerPixel(q, n, z, L) ==
  LET side == FDiv(L, Dc(q, z))  nu == FMul(NuOf(q, z), FLit("1e6")) IN
  FMul(FMul(FDiv(FDiv(FDiv(FMul(2, q.kB), q.cSI), q.cSI), q.jy), FMul(nu, nu)), FMul(1000, FDiv(FMul(side, side), FMul(n, n))))
\* ---- tapers of n samples, symmetric
Cos(a) == FCos(FMul(FMul(2, PiF), a))
Taper(kind, par, n, i) ==
  LET x == IF n = 1 THEN F(0) ELSE FDiv(i, n - 1)  d == FSub(i, FRat(n - 1, 2)) IN
  IF n = 1 THEN F(1) ELSE
  CASE kind = "blackmanharris" -> FSum(<<FLit("0.35875"), FMul(FLit("-0.48829"), Cos(x)), FMul(FLit("0.14128"), Cos(FMul(2, x))), FMul(FLit("-0.01168"), Cos(FMul(3, x)))>>)
    [] kind = "blackman" -> FSum(<<FLit("0.42"), FMul(FLit("-0.5"), Cos(x)), FMul(FLit("0.08"), Cos(FMul(2, x)))>>)
    [] kind = "barthann" -> LET f == FAbs(FSub(x, FRat(1, 2))) IN FSum(<<FLit("0.62"), FMul(FLit("-0.48"), f), FMul(FLit("0.38"), Cos(f))>>)
    [] kind = "bartlett" -> FSub(1, FMul(2, FAbs(FSub(x, FRat(1, 2)))))
    [] kind = "gaussian" -> FExp(FNeg(FDiv(FMul(d, d), FMul(2, FMul(par, par)))))
    [] kind = "hamming" -> FAdd(FLit("0.54"), FMul(FLit("-0.46"), Cos(x)))
    [] kind = "hann" -> FMul(FRat(1, 2), FSub(1, Cos(x)))
    [] OTHER -> F(0)
\* ---- noise in the modes of an n x n map (zero mode first)
\* relative amplitude of the noise of a visibility cell with coverage uv
UvMin == FLit("0.01")
Weight(nat, uv) == IF FLt(uv, UvMin) THEN F(0) ELSE IF nat THEN FDiv(1, FSqrt(uv)) ELSE F(1)
\* the taper seen by the mode at cell i of a side: its centre sits on the zero mode
TaperAt(kind, par, n, i) == Taper(kind, par, n, (i + (n \div 2)) % n)
Opp(n, i) == LET x == (i - 1) \div n  y == (i - 1) % n IN 1 + ((n - x) % n) * n + ((n - y) % n)
\* amplitude of the complex noise cell, and expected power of the real map in that mode, in units of the visibility noise
Cell(n, nat, uv, i) == FMul(Weight(nat, uv[i]), FMul(TaperAt("blackmanharris", F(0), n, (i - 1) \div n), TaperAt("blackmanharris", F(0), n, (i - 1) % n)))
Power(n, nat, uv, i) == LET a == Cell(n, nat, uv, i)  b == Cell(n, nat, uv, Opp(n, i)) IN FDiv(FAdd(FMul(a, a), FMul(b, b)), 2)
\* scale of the map of an observation: independent of the integration time
Depth(sefd, depth, hours) == Visibility(sefd, depth, FMul(3600, hours))
\* ---- lightcones of noise
Width(q, a, b) == FAbs(FSub(NuOf(q, a), NuOf(q, b)))
\* channel of slice i (1-based) of a list of redshifts
ChanOf(q, zs, i) == IF i < Len(zs) THEN Width(q, zs[i], zs[i + 1]) ELSE Width(q, zs[i], zs[i - 1])
BoxChannel(q, z, L, n) == LET d == Dc(q, z) IN FDiv(FSub(NuOf(q, ZofD(q, FSub(d, FDiv(L, 2)), 40)), NuOf(q, ZofD(q, FAdd(d, FDiv(L, 2)), 40))), n)
\* ---- analytic error of the power spectrum (Mellema et al. 2013, eq. 11)
PsError(q, a) ==
  LET z == ZofNu(q, a.nu)  d == Dc(q, z)  dd == FAbs(FSub(d, Dc(q, ZofNu(q, FAdd(a.nu, a.B)))))
      lam == FDiv(FMul(q.c, FLit("1e-3")), a.nu)  fov == FDiv(FMul(lam, lam), a.Aeff)
      core == FMul(PiF, FMul(a.Rmax, a.Rmax))  coll == FMul(a.Nstat, a.Aeff)
      t == FDiv(a.Tsys, FSqrt(FMul(FMul(a.B, FLit("1e6")), FMul(3600, a.hours)))) IN
  FMul(FMul(FMul(FDiv(2, PiF), FPow(a.k, FRat(3, 2))), FSqrt(FMul(FMul(FMul(d, d), dd), fov))),
       FMul(FMul(t, t), FMul(FDiv(FMul(core, a.Aeff), FMul(coll, coll)), FDiv(FSqrt(FAdd(FMul(2, a.ell), 1)), FSqrt(a.eps)))))
\* ---- histories: nights of observation, counted in integers (design level)
\* information in a mode: hours * coverage; independent observations add up
Info(h, c) == h * c
=============================================================================
