------------------------------ MODULE C02Trace ------------------------------
(* C02: conversions between redshift, distance, frequency, angle, age and halo
   mass.  The state is the cosmology in force (set once per session or changed
   by "cosmology" events); each event is one vectorised or scalar call.        *)
EXTENDS Cosmo, TraceDriver
C02Begin(s) == s.init
C02After(t, e) == IF e.op = "cosmology" THEN e.q ELSE t
Want(q, fn, x, z, k) ==
  CASE fn = "z_to_cdist" -> Dc(q, x)
    [] fn = "cdist_to_z" -> ZofD(q, x, 60)
    [] fn = "nu_to_z" -> ZofNu(q, x)
    [] fn = "z_to_nu" -> NuOf(q, x)
    [] fn = "nu_to_cdist" -> Dc(q, ZofNu(q, x))
    [] fn = "nu_to_wavel" -> FDiv(FMul(q.c, 1000), FMul(x, 1000000))
    [] fn = "luminosity_distance" -> DlK(q, x, k)
    [] fn = "angular_size" -> AngArcsec(q, x, z)
    [] fn = "angular_size_comoving" -> AngComDeg(q, x, z)
    [] fn = "deg_to_cdist" -> DegToC(q, x, z)
    [] fn = "c_to_p" -> FDiv(x, FAdd(1, z))
    [] fn = "p_to_c" -> FMul(x, FAdd(1, z))
    [] fn = "z_to_age" -> AgeGyr(q, x)
    [] fn = "hubble_parameter" -> HzC(q, x)
    [] fn = "M_to_Tvir" -> Tvir(q, x, z)
    [] fn = "Tvir_to_M" -> Mvir(q, x, z)
    [] OTHER -> F(0)
\* integrals and the interpolated inverse have their own accuracy; pi is 3.1415 in the angle conversions
RTol(fn) == CASE fn \in {"z_to_cdist", "nu_to_cdist", "luminosity_distance"} -> FLit("1e-6")
              [] fn = "cdist_to_z" -> FLit("5e-6")
              [] fn \in {"angular_size", "angular_size_comoving", "deg_to_cdist"} -> FLit("5e-5")
              [] fn = "z_to_age" -> FLit("1e-5")
              [] OTHER -> FLit("1e-11")
Call(q, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE IF Len(e.v) # Len(e.x) \/ (e.scalar # (e.ndim = 0)) THEN {"one_result_per_input"}
  ELSE {"value_of_" \o e.fn : i \in {j \in DOMAIN e.x : ~ FNear(e.v[j], Want(q, e.fn, e.x[j], e.z[((j - 1) % Len(e.z)) + 1], e.k), RTol(e.fn), FLit("1e-9"))}}
Round(e) ==  \* there and back again
  IF e.exc # "" THEN {"no_exception"}
  ELSE {"undo_" \o e.fn : i \in {j \in DOMAIN e.x : ~ FNear(e.v[j], e.x[j], FLit(e.rtol), 0)}}
Mono(e) == IF e.exc # "" THEN {"no_exception"}
  ELSE {"monotone_" \o e.fn : i \in {j \in 1..(Len(e.v) - 1) : ~ (IF e.up THEN FLt(e.v[j], e.v[j + 1]) ELSE FLt(e.v[j + 1], e.v[j]))}}
C02Verdict(t, e) ==
  CASE e.op = "cosmology" -> {}
    [] e.op = "call" -> Call(t, e)
    [] e.op = "round_trip" -> Round(e)
    [] e.op = "monotone" -> Mono(e)
    [] OTHER -> {"unknown_event"}
=============================================================================
