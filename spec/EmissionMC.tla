----------------------------- MODULE EmissionMC -----------------------------
(* Design model: haloes arrive one by one, in any order, on the cells of a
   periodic box, each carrying its emission; meanwhile a source is moved in
   redshift and its magnitude followed.  Nothing is lost or counted twice, and
   flux, magnitude and luminosity tell the same story.                         *)
EXTENDS Emission
CONSTANTS N, NH, Zs
VARIABLES placed, map, z, app
vars == <<placed, map, z, app>>
Q == [h |-> FLit("0.7"), om |-> FLit("0.3"), ob |-> FLit("0.05")]
O == [alpha |-> FLit("0.9"), yp |-> FLit("0.249"), beta |-> FLit("-0.58"), vc0 |-> FLit("36.3")]
S == [s0 |-> FLit("2.25e-26"), a |-> FLit("2.59"), b |-> FLit("-0.62"), d |-> FLit("0.4"), e |-> FLit("-2.25"), c1 |-> FLit("8e8"), c2 |-> FLit("7e9"), c3 |-> FLit("1e11")]
Mass(i) == FMul(FLit("1e9"), FPow(10, i))
Spot(i) == <<F((2 * i) % N), FRat(i, 2), F((0 - i) + 1)>>
Light(i) == Carbon(StarRate(S, Mass(i), 7), Calib(1 + (i % 4)))
Dl(zz) == FMul(3000, FMul(zz, FAdd(1, FDiv(zz, 2))))
M0 == F(0 - 20)
Init == placed = {} /\ map = [k \in 1..(N * N * N) |-> F(0)] /\ z \in Zs /\ app = Apparent(M0, Dl(z), z)
Arrive == \E i \in (1..NH) \ placed : /\ placed' = placed \cup {i} /\ map' = [map EXCEPT ![CellOf(Spot(i), F(N), N)] = FAdd(@, Light(i))] /\ UNCHANGED <<z, app>>
Move == \E y \in Zs : z' = y /\ app' = Apparent(Absolute(app, Dl(z), z), Dl(y), y) /\ UNCHANGED <<placed, map>>
Spec == Init /\ [][Arrive \/ Move]_vars
Tol == FLit("1e-11")
Here == SetToSeq(placed)
NothingLost == FNear(FSum(map), FSum([j \in DOMAIN Here |-> Light(Here[j])]), Tol, F(0))
OrderFree == LET G == Gather([j \in DOMAIN Here |-> Spot(Here[j])], [j \in DOMAIN Here |-> Light(Here[j])], F(N), N) IN \A k \in DOMAIN map : FNear(map[k], G[k], Tol, F(0))
SameSource == FNear(Absolute(app, Dl(z), z), M0, F(0), FLit("1e-9"))
\* at 10 pc (redshift zero) flux times the sphere is the luminosity, to the precision of the two zero points
Story == FNear(FMul(FMul(4, Pi), FMul(Sq(FLit("3.0857e19")), FluxOf(M0))), LumOf(M0), FRat(1, 100), F(0))
\* a wider field or a farther one covers more; hydrogen and stars grow with the mass of the halo
Grows == /\ \A i \in 1..(NH - 1) : FLt(HydrogenShape(Q, O, Mass(i), z), HydrogenShape(Q, O, Mass(i + 1), z))
         /\ \A i \in 1..2 : FLt(StarRate(S, Mass(i - 1), 7), StarRate(S, Mass(i), 7))
Halves == \A i \in 1..NH : LET m == ParticleMass(FLit("4e10"), 100, 64 * i) IN FNear(ParticlesPerSide(FLit("4e10"), 100, m), 64 * i, Tol, F(0))
=============================================================================
