------------------------------ MODULE L02Trace ------------------------------
(* L02: the Lyman-alpha profile, cross-section and optical depths.
   State: the cosmology in use (mean baryon density today).                    *)
EXTENDS Absorb, TraceDriver
L02Begin(s) == s.init
L02After(t, e) == t
All(R, W, tol) == Len(R) = Len(W) /\ \A i \in DOMAIN W : FNear(R[i], W[i], tol, F(0))
Prof(e) == Broken([values |-> All(e.r, [i \in DOMAIN e.x |-> Voigt(e.x[i], e.a)], IF e.direct THEN FLit("1e-6") ELSE FLit("1e-8"))])
Sigma(e) == Broken([inputs_untouched |-> e.same, unit |-> e.unit, values |-> All(e.r, [i \in DOMAIN e.x |-> CrossSection(e.x[i], e.T)], FLit("1e-5"))])
\* temperatures one by one at one frequency
Warm(e) == Broken([inputs_untouched |-> e.same, values |-> All(e.r, [i \in DOMAIN e.T |-> CrossSection(e.x, e.T[i])], FLit("1e-5"))])
Cells(e) == CASE e.how = "gunn" -> TLCEval([i \in DOMAIN e.x |-> Gunn(e.o, e.z, e.x[i], e.d[i])])
              [] e.how = "path" -> TLCEval([i \in DOMAIN e.x |-> Path(e.o, e.z, e.x[i], e.T[i], e.nu)])
Depth(e) == LET W == Cells(e) IN Broken([inputs_untouched |-> e.same, shape |-> e.r.shape = e.sh, values |-> All(e.r.v, W, FLit("1e-5"))])
Opaque(x) == FLt(680, x)
Sight(e) == LET W == Cells(e)  Ks == IF e.cells > 0 THEN {e.cells} ELSE CellsIn(e.len, e.sh[e.ax], e.box) IN
  Broken([inputs_untouched |-> e.same, shape |-> e.r.shape = e.sh,
          values |-> \E k \in Ks : k > 0 /\ LET V == Effective(W, e.sh, e.ax, k) IN
                       Len(e.r.v) = Len(V) /\ \A i \in DOMAIN V : FNear(e.r.v[i], V[i], FLit("2e-5"), FLit("1e-9")) \/ (Opaque(e.r.v[i]) /\ Opaque(V[i]))])
L02Verdict(t, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE CASE e.op = "profile" -> Prof(e) [] e.op = "sigma" -> Sigma(e) [] e.op = "warm" -> Warm(e) [] e.op = "depth" -> Depth(e) [] e.op = "sight" -> Sight(e) [] OTHER -> {"unknown_event"}
=============================================================================
