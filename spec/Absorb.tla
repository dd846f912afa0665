------------------------------- MODULE Absorb -------------------------------
(* Lyman-alpha absorption: the line profile, the cross-section, the optical
   depth of a cell and the effective optical depth of a stretch of sightline.
   The profile is the Voigt function, here by the trapezoidal rule of step 1/2
   on its defining integral with the residue of the pole added, which is exact
   to rounding.                                                                *)
EXTENDS Flt, Integers, Sequences, FiniteSets, TLC
Pi == FLit("3.141592653589793")
Sq(x) == FMul(x, x)
Nodes == 29
Term(x, a, j) == LET t == FRat(j - 15, 2) IN FDiv(FExp(FNeg(Sq(t))), FAdd(Sq(FSub(x, t)), Sq(a)))
Rule(x, a) == FMul(FDiv(a, FMul(2, Pi)), FSum([j \in 1..Nodes |-> Term(x, a, j)]))
Pole(x, a) ==
  LET E == FExp(FMul(FMul(4, Pi), a))  w == FMul(FMul(4, Pi), x)  u == FSub(1, FMul(E, FCos(w)))  v == FMul(E, FSin(w))
      g == FExp(FSub(Sq(a), Sq(x)))  y == FMul(2, FMul(a, x)) IN
  FDiv(FMul(FMul(2, g), FSub(FMul(FCos(y), u), FMul(FSin(y), v))), FAdd(Sq(u), Sq(v)))
Voigt(x, a) == FAdd(Rule(x, a), IF FLt(a, 6) THEN Pole(x, a) ELSE F(0))
\* ---- the line of hydrogen at temperature T (K)
NuA == FLit("2.46e15")
T4(T) == FDiv(T, 10000)
Doppler(T) == FMul(NuA, FSqrt(FDiv(FMul(2, FMul(FLit("1.380649e-23"), T)), FMul(FLit("1.67262192e-27"), Sq(FLit("299792458"))))))
Damping(T) == FDiv(FLit("4.7e-4"), FSqrt(T4(T)))
Profile(nu, T) == Voigt(FDiv(FSub(nu, NuA), Doppler(T)), Damping(T))
CrossSection(nu, T) == FMul(FDiv(FLit("5.9e-14"), FSqrt(T4(T))), Profile(nu, T))
\* ---- optical depths; rb the mean baryon density today in g/cm^3, xh the share of hydrogen by mass
Mp == FLit("1.67262192e-24")
Me == FLit("9.1093837e-28")
Cubed(z) == FMul(FAdd(1, z), Sq(FAdd(1, z)))
\* fluctuating Gunn-Peterson: t = 1/H(z) in seconds, lam in Angstrom
Gunn(o, z, x, d) ==
  FMul(FMul(FMul(FLit("1.344e-7"), o.kres), FMul(FDiv(o.f, FLit("0.416")), FDiv(o.lam, 1216))),
       FMul(FMul(o.t, Cubed(z)), FMul(x, FMul(FAdd(1, d), FDiv(FMul(o.xh, o.rb), FAdd(Mp, Me))))))
\* a path of dr comoving Mpc through gas of mean density at redshift z
Path(o, z, x, T, nu) ==
  FMul(FMul(FLit("1.820e5"), FDiv(Profile(nu, T), FSqrt(T4(T)))),
       FMul(FMul(x, FMul(Cubed(z), FDiv(FMul(o.xh, o.rb), Mp))), FDiv(FMul(o.dr, FLit("1e6")), FAdd(1, z))))
\* ---- along sightlines: flat arrays in C order, axis 1..3
Stride(sh, ax) == CASE ax = 3 -> 1 [] ax = 2 -> sh[3] [] ax = 1 -> sh[2] * sh[3]
Along(sh, ax, k, s) == LET t == Stride(sh, ax)  p == ((k - 1) \div t) % sh[ax]  q == (((p + s) % sh[ax]) + sh[ax]) % sh[ax] IN k + ((q - p) * t)
\* mean transmission of the w cells centred on k (an even stretch starts w/2 before), periodic
Through(tau, sh, ax, w, k) == FDiv(FSum([j \in 1..w |-> FExp(FNeg(tau[Along(sh, ax, k, j - 1 - (w \div 2))]))]), w)
Effective(tau, sh, ax, w) == TLCEval([k \in DOMAIN tau |-> FNeg(FLn(Through(tau, sh, ax, w, k)))])
\* cells in a stretch of l when the box has n cells in b (same unit), to nearest
CellsIn(l, n, b) == LET x == FDiv(FMul(l, n), b) IN {k \in (FFloor(x) - 1)..(FFloor(x) + 2) : FLe(FAbs(FSub(x, k)), FAdd(FRat(1, 2), FLit("1e-9")))}
=============================================================================
