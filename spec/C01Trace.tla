------------------------------ MODULE C01Trace ------------------------------
(* Trace specification of C01: every event is a real set_* call (or an evaluation
   of conversion functions) followed by a snapshot of all module constants.   *)
EXTENDS Constants, TraceDriver
Tol == FLit("1e-12")
Eq(a, b) == FNear(a, b, Tol, 0)
Physical == {"c", "pc", "Mpc", "G_grav", "m_p", "A10", "nu0", "Tstar", "lambda0", "Tcmb0", "solar_masses_per_gram",
             "kms", "yr_in_sec", "c_light_cgs", "c_light_SI", "KB_SI", "janskytowatt", "abu_he", "abu_h"}
C01Begin(s) ==
  LET x == s.init.c  y == s.init.b IN
  [k |-> [n \in Physical |-> x[n]],
   p |-> [h |-> x.h, Om |-> x.Omega0, Ob |-> x.OmegaB, lam |-> x.lam, OLlast |-> x.OmegaL, ns |-> x.n_s, s8 |-> x.sigma_8, Y |-> x.abu_he_mass],
   b |-> [boxsize |-> y.boxsize, LB |-> y.LB, nbox |-> y.nbox_fine, M_box |-> y.M_box, M_grid |-> y.M_grid, lscale |-> y.lscale, tscale |-> y.tscale]]
\* a session starts from whatever the process state is: check it against the spec's own box when it was just selected
C01After(t, e) ==
  IF e.op = "set_sim_constants" THEN IF Supported(e.v) THEN [t EXCEPT !.b = BoxAt(t.k, t.p, e.v)] ELSE t
  ELSE [t EXCEPT !.p = ApplySet(t.p, e.op, e.v)]
Snapshot(t, e) ==
  LET p == t.p  k == t.k  b == t.b  x == e.c  y == e.bx IN
  {c \in {"h", "Omega0", "OmegaB", "lam", "n_s", "sigma_8", "helium", "hydrogen", "H0", "H0cgs", "rho_crit", "rho_matter", "q0", "num_h", "meandt", "mean_molecular",
     "physical_constants", "boxsize", "LB", "nbox_fine", "M_box", "M_grid", "lscale", "tscale"} :
    ~ CASE c = "h" -> FEq(x.h, p.h)
        [] c = "Omega0" -> FEq(x.Omega0, p.Om)
        [] c = "OmegaB" -> FEq(x.OmegaB, p.Ob)
        [] c = "lam" -> FNear(x.lam, p.lam, Tol, FLit("1e-14"))
        [] c = "n_s" -> FEq(x.n_s, p.ns)
        [] c = "sigma_8" -> FEq(x.sigma_8, p.s8)
        [] c = "helium" -> FEq(x.abu_he_mass, p.Y)
        [] c = "hydrogen" -> Eq(x.abu_h_mass, FSub(1, p.Y))
        [] c = "H0" -> Eq(x.H0, H0(p))
        [] c = "H0cgs" -> Eq(x.H0cgs, H0cgs(k, p))
        [] c = "rho_crit" -> Eq(x.rho_crit_0, RhoCrit(k, p))
        [] c = "rho_matter" -> Eq(x.rho_matter, RhoMatter(k, p))
        [] c = "q0" -> FNear(x.q0, Q0(p), Tol, FLit("1e-14"))
        [] c = "num_h" -> Eq(x.num_h_0, NumH(k, p))
        [] c = "meandt" -> Eq(x.meandt, Meandt(k, p))
        [] c = "mean_molecular" -> Eq(x.mean_molecular, MeanMol(p))
        [] c = "physical_constants" -> \A n \in Physical : FEq(x[n], k[n])
        [] c = "boxsize" -> FEq(y.boxsize, b.boxsize)
        [] c = "LB" -> Eq(y.LB, b.LB)
        [] c = "nbox_fine" -> FEq(y.nbox_fine, b.nbox)
        [] c = "M_box" -> Eq(y.M_box, b.M_box)
        [] c = "M_grid" -> Eq(y.M_grid, b.M_grid)
        [] c = "lscale" -> Eq(y.lscale, b.lscale)
        [] c = "tscale" -> Eq(y.tscale, b.tscale)
        [] OTHER -> FALSE}
\* dark energy density: the code is known not to refresh it in set_omega_matter (known finding);
\* anything else it might be is a different violation
OmegaLam(t, e) ==
  IF FNear(e.c.OmegaL, t.p.lam, Tol, FLit("1e-14")) THEN {}
  ELSE IF FEq(e.c.OmegaL, t.p.OLlast) THEN {"OmegaL_not_updated_by_set_omega_matter"} ELSE {"OmegaL"}
Funs(t, e) == {"value_of_" \o e.fns[i].fn : i \in {j \in DOMAIN e.fns :
                 LET f == e.fns[j] IN ~ (f.exc = "" /\ Len(f.y) = Len(f.x) /\ \A q \in DOMAIN f.x :
                   FNear(f.y[q], Convert(t.k, t.p, t.b, f.fn, f.x[q], f.z), FLit("1e-11"), FLit("1e-13")))}}
Defaults(t) == Broken([default_cosmology |-> FEq(t.p.h, FLit("0.7")) /\ FEq(t.p.Om, FLit("0.27")) /\ FEq(t.p.Ob, FLit("0.044"))
                          /\ FEq(t.p.ns, FLit("0.96")) /\ FEq(t.p.s8, FLit("0.8")) /\ FNear(t.p.lam, FLit("0.73"), Tol, 0)])
C01Verdict(t, e) ==
  LET t2 == C01After(t, e) IN
  CASE e.op = "set_sim_constants" ->
         Snapshot(t2, e) \cup OmegaLam(t2, e) \cup Funs(t2, e) \cup Broken([unsupported_box_refused |-> Supported(e.v) \/ e.exc # "", supported_box_accepted |-> ~Supported(e.v) \/ e.exc = ""])
    [] e.op = "fresh" -> Snapshot(t2, e) \cup OmegaLam(t2, e) \cup Funs(t2, e) \cup Defaults(t)
    [] e.op \in {"set_hubble_h", "set_omega_matter", "set_omega_lambda", "set_omega_baryon", "set_ns", "set_sigma_8", "set_abundance_helium"} ->
         Snapshot(t2, e) \cup OmegaLam(t2, e) \cup Funs(t2, e) \cup Broken([no_exception |-> e.exc = ""])
    [] OTHER -> {"unknown_event"}
=============================================================================
