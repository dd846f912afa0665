------------------------------ MODULE AbsorbMC ------------------------------
(* Design model: clouds are put on a periodic sightline one after another and
   seen through stretches of every length; the profile at every temperature is
   that of one transition, whose total strength no temperature changes.        *)
EXTENDS Absorb
CONSTANTS N, Depths, Ws, Temps
VARIABLES tau, w, T
vars == <<tau, w, T>>
Sh == <<1, 1, N>>
Init == tau = [k \in 1..N |-> F(0)] /\ w \in Ws /\ T \in Temps
Cloud == \E k \in 1..N, d \in Depths : FEq(tau[k], 0) /\ tau' = [tau EXCEPT ![k] = F(d)] /\ UNCHANGED <<w, T>>
Spec == Init /\ [][Cloud]_vars
Tol == FLit("1e-10")
Eff == Effective(tau, Sh, 3, w)
Seen(k) == {Along(Sh, 3, k, j - 1 - (w \div 2)) : j \in 1..w}
\* between the least and the most opaque cell of the stretch, never below the geometric mean's transmission
Between == \A k \in 1..N : \E a, b \in Seen(k) : FLe(FSub(tau[a], Tol), Eff[k]) /\ FLe(Eff[k], FAdd(tau[b], Tol))
Jensen == \A k \in 1..N : FLe(Eff[k], FAdd(Tol, FDiv(FSum([j \in 1..w |-> tau[Along(Sh, 3, k, j - 1 - (w \div 2))]]), w)))
\* stretches of any length share out the same transmission
Conserved == FNear(FSum([k \in 1..N |-> FExp(FNeg(Eff[k]))]), FSum([k \in 1..N |-> FExp(FNeg(tau[k]))]), Tol, F(0))
Whole == w = N => \A k \in 1..N : FNear(Eff[k], Eff[1], Tol, Tol)
Centred == Cardinality(Seen(1)) = (IF w > N THEN N ELSE w) /\ \A k \in 1..N : k \in Seen(k)
\* the profile: even, largest in the centre, of area sqrt(pi)
Even == \A j \in 1..6 : FNear(Voigt(FRat(j, 3), Damping(T)), Voigt(FRat(0 - j, 3), Damping(T)), Tol, F(0))
Peak == \A j \in 1..6 : FLt(Voigt(FRat(j, 3), Damping(T)), Voigt(FRat(j - 1, 3), Damping(T)))
\* 0.416 pi e^2 / (m c) = 0.01104 cm^2 Hz whatever the temperature
Strength == w = 1 /\ (\A k \in 1..N : FEq(tau[k], 0)) =>
  FNear(FMul(FDiv(Doppler(T), 4), FSum([j \in 1..321 |-> CrossSection(FAdd(NuA, FMul(Doppler(T), FRat(j - 161, 4))), T)])), FLit("0.01104"), FRat(1, 100), F(0))
\* optical depth of a Doppler core: path and cross-section are the same thing
Same == LET o == [xh |-> F(1), rb |-> Mp, dr |-> FLit("1e-6")] IN \A zz \in 0..1 :
  FNear(Path(o, zz, F(1), T, NuA), FMul(FMul(CrossSection(NuA, T), FLit("3.0857e18")), Sq(FAdd(1, zz))), FRat(1, 100), F(0))
=============================================================================
