------------------------------ MODULE Emission ------------------------------
(* Magnitudes, fluxes and luminosities of sources, the line emission of haloes
   and how it is gathered on the cells of a periodic box.  A cosmology is a
   record of what astropy says of it: h, om, ob, and the distances asked of it. *)
EXTENDS Flt, Integers, Sequences, FiniteSets, SequencesExt, TLC
Pi == FLit("3.141592653589793")
Log10(x) == FDiv(FLn(x), FLn(10))
Ten(x) == FPow(10, x)
Sq(x) == FMul(x, x)
Cube(x) == FMul(x, Sq(x))
\* ---- photometry
AreaOf(fov, d) == FMul(FMul(fov, Sq(FDiv(Pi, 180))), Sq(d))            \* deg^2, Mpc -> Mpc^2
FluxOf(m) == Ten(FDiv(FNeg(FAdd(m, FLit("48.6"))), FLit("2.5")))       \* AB magnitude -> erg/s/cm^2/Hz
DistMod(dl) == FMul(5, Log10(FMul(dl, F(100000))))                     \* luminosity distance in Mpc over 10 pc
Dimming(dl, z) == FSub(DistMod(dl), FMul(FLit("2.5"), Log10(FAdd(1, z))))
Apparent(M, dl, z) == FAdd(M, Dimming(dl, z))
Absolute(m, dl, z) == FSub(m, Dimming(dl, z))
LumOf(M) == FMul(FLit("1e7"), Ten(FDiv(FSub(FLit("34.1"), M), FLit("2.5")))) \* AB magnitude -> erg/s/Hz
\* ---- line emission of one halo of mass m (solar masses) at redshift z
Circular(q, m, z) == FMul(FMul(FLit("96.6"), FPow(FDiv(FMul(178, q.om), FLit("54.4")), FRat(1, 6))),
                          FMul(FSqrt(FDiv(FAdd(1, z), FLit("3.3"))), FPow(FDiv(m, FLit("1e11")), FRat(1, 3))))
\* neutral hydrogen of a halo up to one factor fixed by the cosmology and beta
HydrogenShape(q, o, m, z) ==
  FMul(FMul(FMul(o.alpha, FSub(1, o.yp)), FMul(m, FPow(FDiv(m, FLit("1e11")), o.beta))),
       FExp(FNeg(Cube(FDiv(o.vc0, Circular(q, m, z))))))
StarRate(o, m, z) ==
  FMul(FMul(FMul(o.s0, FAdd(1, FMul(FSub(z, 7), FLit("0.075")))), FPow(m, o.a)),
       FMul(FMul(FPow(FAdd(1, FDiv(m, o.c1)), o.b), FPow(FAdd(1, FDiv(m, o.c2)), o.d)), FPow(FAdd(1, FDiv(m, o.c3)), o.e)))
\* slope and offset of the four calibrations of the line
Calib(k) == CASE k = 1 -> <<FLit("0.8475"), FLit("7.2203")>> [] k = 2 -> <<F(1), FLit("6.9647")>> [] k = 3 -> <<FLit("0.8727"), FLit("6.7250")>> [] k = 4 -> <<FLit("0.9231"), FLit("6.5234")>>
Carbon(rate, ab) == FMul(Ten(ab[2]), FPow(rate, ab[1]))
\* ---- gathering on n^3 cells of a box of side L, flat in C order
CellOf(p, L, n) == LET c(x) == FFloor(FDiv(FMul(x, n), L)) % n IN 1 + c(p[1]) * n * n + c(p[2]) * n + c(p[3])
Gather(P, V, L, n) ==
  LET C == TLCEval([i \in DOMAIN P |-> CellOf(P[i], L, n)]) IN
  TLCEval([k \in 1..(n * n * n) |-> FSum([i \in DOMAIN P |-> IF C[i] = k THEN V[i] ELSE F(0)])])
\* ---- N-body bookkeeping: rho the mean matter density in solar masses per Mpc^3
ParticleMass(rho, L, n) == FMul(rho, Cube(FDiv(L, n)))
ParticlesPerSide(rho, L, m) == FMul(L, FPow(FDiv(rho, m), FRat(1, 3)))
=============================================================================
