----------------------------- MODULE LayoutMC -----------------------------
(* Design model: antennas are set up one by one and the whole layout is carried
   from frame to frame at several places on Earth; distances never change, the
   centre stays where it is, and baselines come in opposite pairs.             *)
EXTENDS Layout
CONSTANTS Grid, NA, Lats, Lons
VARIABLES local, now, frame, lat, lon
vars == <<local, now, frame, lat, lon>>
O == <<F(100), F(0 - 50), F(7)>>
Spots == {<<x, y, z>> : x \in Grid, y \in Grid, z \in {0, 1}}
Init == local = <<>> /\ now = <<>> /\ frame = "enu" /\ lat \in Lats /\ lon \in Lons
Place == /\ frame = "enu" /\ Len(local) < NA /\ \E p \in Spots : local' = Append(local, p) /\ now' = Append(now, p) /\ UNCHANGED <<frame, lat, lon>>
Carry == \/ /\ frame = "enu" /\ Len(local) = NA /\ frame' = "ecef" /\ now' = TLCEval([i \in DOMAIN now |-> ToEarth(now[i], lat, lon, O)]) /\ UNCHANGED <<local, lat, lon>>
         \/ /\ frame = "ecef" /\ frame' = "xyz" /\ now' = TLCEval([i \in DOMAIN now |-> Turned(now[i], lon, O)]) /\ UNCHANGED <<local, lat, lon>>
Spec == Init /\ [][Place \/ Carry]_vars
Tol == FLit("1e-9")
Close(p, q) == \A i \in 1..3 : FNear(p[i], q[i], F(0), Tol)
DistancesKept == Rigid(local, now, Tol)
CentreStays == Close(ToEarth(<<0, 0, 0>>, lat, lon, O), O) /\ Close(Turned(O, lon, O), O)
\* once turned, east is the second axis whatever the place, and the height is shared between the first and the third
EastSecond == frame = "xyz" => \A i \in DOMAIN now : FNear(Minus(now[i], O)[2], local[i][1], F(0), Tol)
Frames == /\ FNear(FDot(UpAt(lat, lon), NorthAt(lat, lon)), 0, F(0), Tol) /\ FNear(FDot(UpAt(lat, lon), EastAt(lon)), 0, F(0), Tol)
          /\ FNear(FDot(NorthAt(lat, lon), EastAt(lon)), 0, F(0), Tol)
          /\ Close(UpAt(lat, lon), Minus(OnSphere(lon, lat, FLit("-6370999")), <<0, 0, 0>>))
\* height on the ellipsoid is measured along the local vertical
HeightUp == Close(Minus(OnEarth(lat, lon, 1000), OnEarth(lat, lon, 999)), UpAt(lat, lon)) \/ \A i \in 1..3 : FNear(Minus(OnEarth(lat, lon, 1000), OnEarth(lat, lon, 0))[i], FMul(1000, UpAt(lat, lon)[i]), F(0), FLit("1e-6"))
Opposite == \A q \in PairsOf(Len(now)) : Close(BaseOf(now, q), Times(BaseOf(now, <<q[2], q[1]>>), F(0 - 1)))
=============================================================================
