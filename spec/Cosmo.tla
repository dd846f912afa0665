-------------------------------- MODULE Cosmo --------------------------------
(* Background cosmology: distances, redshifts, frequencies, angles, ages.
   q = [H0, Om, lam, c, nu0] are the constants in force (km/s/Mpc, km/s, MHz). *)
EXTENDS Flt, Integers, Sequences
EzC(q, z) == FSqrt(FAdd(FMul(q.Om, FPow(FAdd(1, z), 3)), q.lam))
HzC(q, z) == FMul(q.H0, EzC(q, z))
\* composite Simpson rule with 2n panels for Op on [a, b]
Simpson(Op(_), a, b, n) ==
  LET h == FDiv(FSub(b, a), 2 * n)
      x(i) == FAdd(a, FMul(i, h))
  IN FMul(FDiv(h, 3), FSum([i \in 1..(2 * n + 1) |->
       FMul(IF i = 1 \/ i = 2 * n + 1 THEN 1 ELSE IF i % 2 = 0 THEN 4 ELSE 2, Op(x(i - 1)))]))
\* comoving distance; the substitution z = e^u - 1 keeps the integrand smooth
Dc(q, z) == LET f(u) == FDiv(FExp(u), EzC(q, FSub(FExp(u), 1)))
            IN FMul(FDiv(q.c, q.H0), Simpson(f, 0, FLn(FAdd(1, z)), 64))
\* the redshift at comoving distance d: bisection on the increasing function Dc
RECURSIVE Bis(_, _, _, _, _)
Bis(q, d, lo, hi, n) == IF n = 0 THEN FDiv(FAdd(lo, hi), 2)
                        ELSE LET m == FDiv(FAdd(lo, hi), 2) IN IF FLt(Dc(q, m), d) THEN Bis(q, d, m, hi, n - 1) ELSE Bis(q, d, lo, m, n - 1)
ZofD(q, d, zmax) == Bis(q, d, 0, zmax, 40)
NuOf(q, z) == FDiv(q.nu0, FAdd(1, z))
ZofNu(q, nu) == FSub(FDiv(q.nu0, nu), 1)

\* ---- lightcone redshift grids
\* next redshift one box cell (cell cMpc) further: the frequency step is nu0 H(z) cell / ((1+z)^2 c)
NextCell(q, z, cell) ==
  LET nu == NuOf(q, z)
      dnu == FDiv(FMul(FMul(q.nu0, HzC(q, z)), cell), FMul(FMul(FAdd(1, z), FAdd(1, z)), q.c))
  IN FSub(FDiv(q.nu0, FSub(nu, dnu)), 1)
\* next redshift one channel lower in redshift
NextChan(q, z, dnu) == FSub(FDiv(q.nu0, FAdd(NuOf(q, z), dnu)), 1)

\* ---- subvolume
Limits(q, zc, kind, depth) ==   \* <<low z, high z, depth in cMpc>>
  IF kind = "mhz"
  THEN LET nu == NuOf(q, zc)  zl == ZofNu(q, FAdd(nu, FDiv(depth, 2)))  zh == ZofNu(q, FSub(nu, FDiv(depth, 2)))
       IN <<zl, zh, FSub(Dc(q, zh), Dc(q, zl))>>
  ELSE LET d == Dc(q, zc) IN <<ZofD(q, FSub(d, FDiv(depth, 2)), 40), ZofD(q, FAdd(d, FDiv(depth, 2)), 40), depth>>
\* indices nearest to z (more than one only when tied within tol)
Nearest(zs, z, tol) ==
  LET d(i) == FAbs(FSub(zs[i], z))
      m == CHOOSE i \in DOMAIN zs : \A j \in DOMAIN zs : FLe(d(i), d(j))
  IN {i \in DOMAIN zs : FLe(d(i), FAdd(d(m), tol))}
\* ---- further conversions (z may be any double >= 0)
\* luminosity distance: the integrand of the code allows curvature, k = 0
LdistE(q, z) ==
  LET z1 == FAdd(1, z) IN
  FSub(FMul(FMul(z1, z1), FAdd(1, FMul(q.Om, z))), FMul(FMul(z, FAdd(2, z)), q.lam))
\* with a curvature k > 0 (open) or k < 0 (closed) the sphere is larger or smaller; without dark energy q0 says it all (Mattig)
Sinh(x) == FDiv(FSub(FExp(x), FExp(FNeg(x))), 2)
Bent(x, k) == IF FEq(k, 0) THEN x ELSE LET s == FSqrt(FAbs(k)) IN FDiv(IF FLt(0, k) THEN Sinh(FMul(s, x)) ELSE FSin(FMul(s, x)), s)
Mattig(q0, z) == FMul(z, FAdd(1, FDiv(FMul(z, FSub(1, q0)), FAdd(FAdd(FSqrt(FAdd(1, FMul(2, FMul(q0, z)))), 1), FMul(q0, z)))))
DlK(q, z, k) ==
  IF FEq(q.lam, 0) THEN FMul(FDiv(q.c, q.H0), Mattig(FDiv(q.Om, 2), z))
  ELSE LET f(u) == FDiv(FExp(u), FSqrt(LdistE(q, FSub(FExp(u), 1)))) IN
       FMul(FMul(FAdd(1, z), FDiv(q.c, q.H0)), Bent(Simpson(f, 0, FLn(FAdd(1, z)), 64), k))
Dl(q, z) == DlK(q, z, 0)
PiF == FLit("3.141592653589793")
AngArcsec(q, kpc, z) == FDiv(FMul(FMul(FDiv(648000, PiF), kpc), FMul(FAdd(1, z), FAdd(1, z))), FMul(1000, Dl(q, z)))
AngComDeg(q, cMpc, z) == FDiv(AngArcsec(q, FMul(1000, FDiv(cMpc, FAdd(1, z))), z), 3600)
DegToC(q, deg, z) == FDiv(deg, AngComDeg(q, 1, z))
\* age in Gyr (a^2 = t substitution not needed: x = a v^2 makes the integrand smooth at 0)
AgeGyr(q, z) ==
  LET a == FDiv(1, FAdd(1, z))
      f(v) == IF FEq(v, 0) THEN F(0) ELSE
              LET x == FMul(a, FMul(v, v)) IN FDiv(FMul(FMul(2, a), v), FMul(x, FSqrt(FAdd(FDiv(q.Om, FPow(x, 3)), q.lam))))
  IN FMul(FMul(FDiv(1, q.H0), Simpson(f, 0, 1, 64)), FDiv(FDiv(q.Mpc_per_kms, q.yr), FLit("1e9")))
\* virial temperature and mass (Barkana & Loeb 2001)
Vir(q, z) ==
  LET z1 == FAdd(1, z)  z3 == FPow(z1, 3)
      ok == FSub(FSub(1, q.Om), q.OmegaL)
      omz == FDiv(FMul(q.Om, z3), FAdd(FAdd(FMul(q.Om, z3), q.OmegaL), FMul(ok, FMul(z1, z1))))
      d == FSub(omz, 1)
      pi2 == FMul(18, FMul(PiF, PiF))
      delc == FSub(FAdd(pi2, FMul(82, d)), FMul(39, FMul(d, d)))
  IN FMul(FMul(19800, FPow(FDiv(FDiv(FMul(q.Om, delc), omz), pi2), FRat(1, 3))), FDiv(z1, 10))
Tvir(q, M, z) == FMul(Vir(q, z), FPow(FMul(M, FDiv(q.h, FLit("1e8"))), FRat(2, 3)))
Mvir(q, T, z) == FMul(FDiv(FLit("1e8"), q.h), FPow(FDiv(T, Vir(q, z)), FRat(3, 2)))

SubCount(lo, hi, odd) == LET n == hi - lo IN IF odd /\ n % 2 = 0 THEN n + 1 ELSE n
=============================================================================
