------------------------------- MODULE Signal -------------------------------
(* Differential brightness temperature of a cell and Thomson optical depth of a
   sightline, as functions of the constants in force
   q = [H0, Om, lam, c, nu0, h, meandt, rhob, Tcmb0, LB, ...].                 *)
EXTENDS Cosmo, TLC
\* mean signal at redshift z (curved backgrounds included)
Ez2(q, z) == LET z1 == FAdd(1, z) IN
  FAdd(FAdd(FMul(q.Om, FPow(z1, 3)), q.lam), FMul(FSub(FSub(1, q.Om), q.lam), FMul(z1, z1)))
MeanDt(q, z) == LET z1 == FAdd(1, z) IN FDiv(FMul(FDiv(q.meandt, q.h), FMul(z1, z1)), FSqrt(Ez2(q, z)))
DtCell(q, xi, rho, z) == FMul(FMul(MeanDt(q, z), FSub(1, xi)), FDiv(rho, q.rhob))
\* temperature of the neutral part of a partly ionised cell: the ionised part is at 2e4 K, and the gas has not
\* cooled below what adiabatic expansion since z = 200 allows
TMin(q, z) == LET r == FDiv(FAdd(1, z), 201) IN FMul(FMul(q.Tcmb0, 201), FMul(r, r))
TNeutral(q, xi, T, z) == FMax(FDiv(FSub(T, FMul(xi, 20000)), FSub(1, xi)), TMin(q, z))
DtFullCell(q, xi, rho, T, z, correct) ==
  IF FEq(xi, 1) \/ FEq(rho, 0) THEN F(0)
  ELSE LET Ts == IF correct THEN TNeutral(q, xi, T, z) ELSE T
       IN FMul(FSub(1, FDiv(FMul(q.Tcmb0, FAdd(1, z)), Ts)), DtCell(q, xi, rho, z))
\* redshift of slice k (0-based) of a lightcone: k cells of comoving size cell beyond the lowest redshift
SliceZ(q, zlow, cell, k) == ZofD(q, FAdd(Dc(q, zlow), FMul(k, cell)), 60)
\* ---- optical depth
SigmaT == FLit("6.65e-25")
TauCoeff(q) ==
  LET num == FMul(FMul(FMul(FMul(2, FMul(q.c, 100000)), SigmaT), FMul(FDiv(q.OmB, q.Om), q.rhoc)), FAdd(1, q.abu_he))
  IN FDiv(num, FMul(FMul(q.mmol, q.mp), FMul(3, q.H0cgs)))
TauFull(q, z) == FMul(TauCoeff(q), FSub(EzC(q, z), 1))
Integrand(q, x, z) == FMul(FMul(FMul(FRat(3, 2), TauCoeff(q)), q.Om), FDiv(FMul(x, FMul(FAdd(1, z), FAdd(1, z))), EzC(q, z)))
Step(q, x1, z1, x2, z2) == FDiv(FMul(FAdd(Integrand(q, x1, z1), Integrand(q, x2, z2)), FSub(z2, z1)), 2)
\* indices of zs in increasing order of redshift
Sorted(zs) == SortSeq([i \in 1..Len(zs) |-> i], LAMBDA a, b : FLt(zs[a], zs[b]))
=============================================================================
