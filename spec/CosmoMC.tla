------------------------------ MODULE CosmoMC ------------------------------
(* Model of the grid construction and of subvolumes over a small family of
   cosmologies: the step rules advance by one cell / one channel, grids are
   strictly increasing, never leave the request, subvolume counts are odd when asked
   and always fit inside the lightcone.                                        *)
EXTENDS Cosmo, TLC, FiniteSets
CONSTANTS OmV, Cells, MaxLen
VARIABLES q, zs, mode, step
vars == <<q, zs, mode, step>>
Q(om) == [H0 |-> 70, Om |-> FRat(om, 100), lam |-> FSub(1, FRat(om, 100)), c |-> 300000, nu0 |-> 1420]
ZHigh == 9  ZLow == 7
Init == /\ q \in {Q(om) : om \in OmV} /\ mode \in {"cell", "chan"} /\ step \in Cells
        /\ zs = IF mode = "cell" THEN <<F(ZLow)>> ELSE <<F(ZHigh)>>
Grow == /\ Len(zs) < MaxLen
        /\ IF mode = "cell"
           THEN LET n == NextCell(q, zs[Len(zs)], step) IN FLt(n, ZHigh) /\ zs' = Append(zs, n)
           ELSE LET n == NextChan(q, zs[1], FRat(step, 10)) IN FLt(ZLow, n) /\ zs' = <<n>> \o zs
        /\ UNCHANGED <<q, mode, step>>
Spec == Init /\ [][Grow]_vars
Increasing == \A i \in 1..(Len(zs) - 1) : FLt(zs[i], zs[i + 1])
Inside == \A i \in DOMAIN zs : FLe(ZLow, zs[i]) /\ FLe(zs[i], ZHigh)
OneStep == Len(zs) > 1 =>
  IF mode = "cell" THEN FNear(FSub(Dc(q, zs[Len(zs)]), Dc(q, zs[Len(zs) - 1])), step, FLit("0.02"), 0)
  ELSE FNear(FSub(NuOf(q, zs[1]), NuOf(q, zs[2])), FRat(step, 10), FLit("1e-9"), 0)
Inverse == FNear(ZofD(q, Dc(q, zs[1]), 40), zs[1], FLit("1e-8"), 0) /\ FNear(ZofNu(q, NuOf(q, zs[1])), zs[1], FLit("1e-12"), 0)
\* the conversions agree with each other (flat cosmologies)
Consistent == LET z == zs[1] IN
  /\ FNear(Dl(q, z), FMul(FAdd(1, z), Dc(q, z)), FLit("1e-9"), 0)
  /\ FNear(DegToC(q, FDiv(180, PiF), z), Dc(q, z), FLit("1e-9"), 0)
  /\ FNear(AngComDeg(q, DegToC(q, 3, z), z), 3, FLit("1e-9"), 0)
SubFits == \A lo, hi \in DOMAIN zs : lo <= hi => /\ SubCount(lo, hi, TRUE) % 2 = 1
                                                /\ lo + SubCount(lo, hi, TRUE) - 1 <= Len(zs)
                                                /\ SubCount(lo, hi, FALSE) = hi - lo
=============================================================================
