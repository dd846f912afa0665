---------------------------- MODULE ConstantsMC ----------------------------
(* The design: derived constants are *stored* and must be refreshed by each
   setter (the code keeps them as module variables).  TLC explores every order
   of set_* calls and box selections; the invariant is that what is stored is
   the formula of what is current.  Also generates call sequences for replay
   (GenSpec, simulation mode).                                               *)
EXTENDS Constants, TLC, Json, FiniteSets
CONSTANTS HV, MV, LV, BV, YV, Boxes, GenLen
VARIABLES p, stored, box, hist
vars == <<p, stored, box, hist>>
K == [Mpc |-> FLit("3.086e24"), G_grav |-> FLit("6.6732e-8"), m_p |-> FLit("1.672661e-24"),
      lambda0 |-> FLit("21.126760563380282"), A10 |-> FLit("2.85e-15"), Tstar |-> FLit("0.068"),
      solar_masses_per_gram |-> FLit("5.02785431e-34")]
V(n) == FRat(n, 1000)
Derive(q) == [H0 |-> H0(q), rc |-> RhoCrit(K, q), rm |-> RhoMatter(K, q), q0 |-> Q0(q), nh |-> NumH(K, q), dt |-> Meandt(K, q)]
P0 == [h |-> V(700), Om |-> V(270), Ob |-> V(44), lam |-> FSub(1, V(270)), OLlast |-> FSub(1, V(270)), ns |-> V(960), s8 |-> V(800), Y |-> FLit("0.2486")]
Init == p = P0 /\ stored = Derive(P0) /\ box = BoxAt(K, P0, 244) /\ hist = <<>>
Do(op, v) == /\ p' = ApplySet(p, op, V(v))
             /\ stored' = Derive(p')
             /\ UNCHANGED box
             /\ hist' = Append(hist, [op |-> op, v |-> v])
Select(x) == /\ box' = IF Supported(x) THEN BoxAt(K, p, x) ELSE box
             /\ UNCHANGED <<p, stored>>
             /\ hist' = Append(hist, [op |-> "set_sim_constants", v |-> x])
Next == \/ \E v \in HV : Do("set_hubble_h", v)
        \/ \E v \in MV : Do("set_omega_matter", v)
        \/ \E v \in LV : Do("set_omega_lambda", v)
        \/ \E v \in BV : Do("set_omega_baryon", v)
        \/ \E v \in YV : Do("set_abundance_helium", v)
        \/ \E x \in Boxes : Select(x)
Spec == Init /\ [][Next]_vars
View == <<p, stored, box>>
StoredIsCurrent == stored = Derive(p)
Bound == Len(hist) <= 30
\* consequences a user relies on
MatterIsFraction == FNear(stored.rm, FMul(p.Om, stored.rc), FLit("1e-14"), 0)
BoxConsistent == /\ FNear(FMul(box.M_grid, FPow(box.nbox, 3)), box.M_box, FLit("1e-12"), 0)
                 /\ FNear(FMul(box.lscale, box.nbox), FMul(box.LB, K.Mpc), FLit("1e-12"), 0)
\* setters of different parameters commute, box selection freezes the cosmology it saw
InverseConversions == \A x \in {1, 7} :
  FNear(Convert(K, p, box, "Msolar_2_Mgrid", Convert(K, p, box, "Mgrid_2_Msolar", x, 0), 0), x, FLit("1e-13"), 0)
\* generation: print the history of every simulated run of GenLen calls
Emit == Len(hist) = GenLen => PrintT(<<"@GEN", ToJson(hist)>>)
GenNext == Len(hist) < GenLen /\ (Next \/ \E v \in {900, 1000} : Do("set_ns", v) \/ \E w \in {750, 850} : Do("set_sigma_8", w))
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
