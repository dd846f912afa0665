------------------------------ MODULE D02Trace ------------------------------
(* D02: the abstract state is the cosmology; each event is one call.           *)
EXTENDS Signal, TraceDriver
D02Begin(s) == s.init
D02After(t, e) == t
\* one sightline x over redshifts zs (any order), np initial points, against values v at vz
Line(q, xs, zs, np, v, vz) ==
  LET p == Sorted(zs)  n == Len(zs)  z(i) == zs[p[i]]  x(i) == xs[p[i]]
      nb(i, w) == FNear(FSub(v[np + i + 1], v[np + i]), w, FLit("1e-8"), FMul(FLit("1e-13"), v[np + i + 1]))
  IN IF Len(v) # n + np \/ Len(vz) # n + np THEN {"one_value_per_redshift"}
     ELSE Broken([redshifts_sorted |-> (\A i \in 1..n : FEq(vz[np + i], z(i))) /\ (\A i \in 1..np : FNear(vz[i], FDiv(FMul(i, z(1)), np), FLit("1e-12"), 0)),
                  fully_ionised_below |-> \A i \in 1..np : FNear(v[i], TauFull(q, FDiv(FMul(i, z(1)), np)), FLit("1e-9"), FLit("1e-15")),
                  starts_fully_ionised |-> FNear(v[np + 1], TauFull(q, z(1)), FLit("1e-9"), 0),
                  interval_contribution |-> \A i \in 1..(n - 1) : nb(i, Step(q, x(i), z(i), x(i + 1), z(i + 1))),
                  never_decreases |-> \A i \in 1..(n + np - 1) : FLe(v[i], v[i + 1]),
                  flat_where_neutral |-> \A i \in 1..(n - 1) : (FEq(x(i), 0) /\ FEq(x(i + 1), 0)) => FEq(v[np + i], v[np + i + 1])])
D02Verdict(q, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE CASE e.op = "tau" -> Line(q, e.x, e.z, e.np, e.v, e.vz)
    [] e.op = "tau_map" -> IF e.shape # <<e.nx, e.ny, Len(e.z) + e.np>> THEN {"map_shape"}
         ELSE UNION {Line(q, e.lines[i].x, e.z, e.np, e.lines[i].v, e.vz) : i \in DOMAIN e.lines}
    [] e.op = "unchanged" -> Broken([inputs_untouched |-> e.same])
    [] OTHER -> {"unknown_event"}
=============================================================================
