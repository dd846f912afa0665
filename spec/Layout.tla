------------------------------- MODULE Layout -------------------------------
(* Where the antennas stand: local east-north-up positions, the Earth-centred
   frame, a frame turned about the axis of the Earth, and longitudes and
   latitudes on a sphere or on the WGS84 ellipsoid.  A position is a triple of
   numbers.                                                                    *)
EXTENDS Flt, Integers, Sequences, FiniteSets, SequencesExt, TLC
Rad(d) == FMul(d, FDiv(FLit("3.14159265358979323846"), 180))
V3(a, b, c) == <<a, b, c>>
Plus(p, q) == TLCEval([i \in 1..3 |-> FAdd(p[i], q[i])])
Minus(p, q) == TLCEval([i \in 1..3 |-> FSub(p[i], q[i])])
Times(p, f) == TLCEval([i \in 1..3 |-> FMul(p[i], f)])
Dist(p, q) == LET d == Minus(p, q) IN FSqrt(FDot(d, d))
\* ---- directions at a longitude and a latitude (degrees)
UpAt(lat, lon) == <<FMul(FCos(Rad(lat)), FCos(Rad(lon))), FMul(FCos(Rad(lat)), FSin(Rad(lon))), FSin(Rad(lat))>>
NorthAt(lat, lon) == <<FNeg(FMul(FSin(Rad(lat)), FCos(Rad(lon)))), FNeg(FMul(FSin(Rad(lat)), FSin(Rad(lon)))), FCos(Rad(lat))>>
EastAt(lon) == <<FNeg(FSin(Rad(lon))), FCos(Rad(lon)), F(0)>>
\* ---- east-north-up to the Earth-centred frame, and from there to the turned one
ToEarth(p, lat, lon, o) == Plus(o, Plus(Plus(Times(EastAt(lon), p[1]), Times(NorthAt(lat, lon), p[2])), Times(UpAt(lat, lon), p[3])))
Turned(p, lon, o) ==
  LET d == Minus(p, o)  c == FCos(Rad(lon))  s == FSin(Rad(lon)) IN
  Plus(o, <<FAdd(FMul(c, d[1]), FMul(s, d[2])), FSub(FMul(c, d[2]), FMul(s, d[1])), d[3]>>)
\* ---- on a sphere of 6371 km
OnSphere(lon, lat, h) == Times(UpAt(lat, lon), FAdd(6371000, h))
\* ---- on the WGS84 ellipsoid
OnEarth(lat, lon, h) ==
  LET a == FLit("6378137")  f == FDiv(1, FLit("298.257223563"))  e2 == FMul(f, FSub(2, f))
      sl == FSin(Rad(lat))  n == FDiv(a, FSqrt(FSub(1, FMul(e2, FMul(sl, sl)))))  u == UpAt(lat, lon) IN
  <<FMul(FAdd(n, h), u[1]), FMul(FAdd(n, h), u[2]), FMul(FAdd(FMul(n, FSub(1, e2)), h), u[3])>>
\* ---- baselines: every antenna seen from every other
PairsOf(n) == {q \in (1..n) \X (1..n) : q[1] # q[2]}
BaseOf(P, q) == Minus(P[q[1]], P[q[2]])
\* P and Q are the same layout, moved and turned as a whole
Rigid(P, Q, tol) == Len(P) = Len(Q) /\ \A i, j \in DOMAIN P : i < j => FNear(Dist(P[i], P[j]), Dist(Q[i], Q[j]), FLit("1e-9"), tol)
=============================================================================
