------------------------------ MODULE L01Trace ------------------------------
(* L01: photometry, particle bookkeeping and line-intensity maps.
   State: the cosmology in use (as astropy describes it).                      *)
EXTENDS Emission, TraceDriver
L01Begin(s) == s.init
L01After(t, e) == t
Tol == FLit("1e-8")
Close(a, b) == FNear(a, b, Tol, F(0))
Near0(a, b) == FNear(a, b, Tol, FLit("1e-9"))
Each(R, X, f(_)) == Len(R) = Len(X) /\ \A i \in DOMAIN X : f(i)
Photo(e) == LET W(x) == CASE e.what = "area" -> AreaOf(x, e.d) [] e.what = "flux" -> FluxOf(x) [] e.what = "apparent" -> Apparent(x, e.d, e.z)
                          [] e.what = "absolute" -> Absolute(x, e.d, e.z) [] e.what = "luminosity" -> LumOf(x) IN
  Broken([inputs_untouched |-> e.same, unit |-> e.unit, values |-> Each(e.r, e.x, LAMBDA i : Near0(e.r[i], W(e.x[i])))])
\* there and back again through the real code
Back(e) == Broken([back_again |-> Each(e.r, e.x, LAMBDA i : Near0(e.r[i], e.x[i]))])
Particle(e) == Broken([value |-> Close(e.r, CASE e.what = "mass" -> ParticleMass(e.rho, e.L, e.x) [] e.what = "number" -> ParticlesPerSide(e.rho, e.L, e.x))])
Map(e, V) == LET W == Gather(e.p, V, e.L, e.n) IN
  Broken([inputs_untouched |-> e.same, unit |-> e.unit, shape |-> e.r.shape = <<e.n, e.n, e.n>>, each_halo_in_its_cell |-> Len(e.r.v) = Len(W) /\ \A k \in DOMAIN W : FNear(e.r.v[k], W[k], FLit("1e-7"), F(0))])
\* e.ref: what one halo of mass e.mref gives with the options e.oref (same cosmology, same beta)
Hydrogen(t, e) == LET u == FDiv(e.ref, HydrogenShape(t, e.oref, e.mref, e.zref)) IN
  Map(e, TLCEval([i \in DOMAIN e.m |-> FMul(u, HydrogenShape(t, e.o, e.m[i], e.z))]))
Rate(e, m) == IF e.given THEN FMul(e.o.s0, FPow(m, e.o.a)) ELSE StarRate(e.o, m, e.z)
CarbonMap(e) == Map(e, TLCEval([i \in DOMAIN e.m |-> Carbon(Rate(e, e.m[i]), IF e.k = 0 THEN e.ab ELSE Calib(e.k))]))
L01Verdict(t, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE CASE e.op = "photo" -> Photo(e) [] e.op = "back" -> Back(e) [] e.op = "particle" -> Particle(e)
    [] e.op = "hydrogen" -> Hydrogen(t, e) [] e.op = "carbon" -> CarbonMap(e) [] OTHER -> {"unknown_event"}
=============================================================================
