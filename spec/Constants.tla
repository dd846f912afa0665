----------------------------- MODULE Constants -----------------------------
(* The process-wide cosmology and simulation-box constants of tools21cm
   (const.py, conv.py).  State: the primary parameters p, and the box record b
   frozen when the box was last selected.  Every other constant is a function of
   them (and of the immutable physical constants k).                          *)
EXTENDS Flt, Integers, Sequences

Pi == FLit("3.141592653589793")
\* ---- transitions on the primary parameters (values are doubles)
SetH(p, v)      == [p EXCEPT !.h = v]
SetOmegaM(p, v) == [p EXCEPT !.Om = v, !.lam = FSub(1, v)]
SetOmegaL(p, v) == [p EXCEPT !.lam = v, !.OLlast = v]
SetOmegaB(p, v) == [p EXCEPT !.Ob = v]
SetNs(p, v)     == [p EXCEPT !.ns = v]
SetS8(p, v)     == [p EXCEPT !.s8 = v]
SetHe(p, v)     == [p EXCEPT !.Y = v]
ApplySet(p, op, v) ==
  CASE op = "set_hubble_h" -> SetH(p, v)
    [] op = "set_omega_matter" -> SetOmegaM(p, v)
    [] op = "set_omega_lambda" -> SetOmegaL(p, v)
    [] op = "set_omega_baryon" -> SetOmegaB(p, v)
    [] op = "set_ns" -> SetNs(p, v)
    [] op = "set_sigma_8" -> SetS8(p, v)
    [] op = "set_abundance_helium" -> SetHe(p, v)
    [] OTHER -> p

\* ---- derived cosmology
H0(p)      == FMul(100, p.h)
H0cgs(k, p) == FDiv(FMul(H0(p), 100000), k.Mpc)
RhoCrit(k, p) == FDiv(FMul(3, FMul(H0cgs(k, p), H0cgs(k, p))), FMul(FMul(8, Pi), k.G_grav))
RhoMatter(k, p) == FMul(RhoCrit(k, p), p.Om)
Q0(p)      == FSub(FDiv(p.Om, 2), p.lam)
NumH(k, p) == FDiv(FMul(FMul(FSub(1, p.Y), p.Ob), RhoCrit(k, p)), k.m_p)
Meandt(k, p) ==  \* mK
  LET geo == FMul(FDiv(FMul(3, FPow(k.lambda0, 3)), FMul(32, Pi)), FMul(k.A10, k.Tstar))
  IN FMul(1000, FDiv(FMul(geo, NumH(k, p)), FDiv(H0cgs(k, p), p.h)))
MeanMol(p) == FDiv(1, FSub(1, p.Y))
E2(p, z) == FAdd(FMul(p.Om, FPow(FAdd(1, z), 3)), p.lam)
Hz(p, z) == FMul(H0(p), FSqrt(E2(p, z)))
MeanDtZ(k, p, z) ==
  LET z1 == FAdd(1, z)
      ez == FSqrt(FAdd(E2(p, z), FMul(FSub(FSub(1, p.Om), p.lam), FMul(z1, z1))))
  IN FDiv(FMul(FDiv(Meandt(k, p), p.h), FMul(z1, z1)), ez)

\* ---- simulation boxes: fine mesh per box size (cMpc/h)
FineMesh == [x \in {37, 47, 64, 114, 200, 244, 425, 500} |->
  CASE x = 37 -> 2048 [] x = 47 -> 3456 [] x = 64 -> 3456 [] x = 114 -> 6144
    [] x = 200 -> 3456 [] x = 244 -> 8000 [] x = 425 -> 10976 [] OTHER -> 13824]
Supported(x) == \E s \in DOMAIN FineMesh : FLt(FAbs(FSub(x, s)), FLit("1e-4"))
MeshOf(x) == FineMesh[CHOOSE s \in DOMAIN FineMesh : FLt(FAbs(FSub(x, s)), FLit("1e-4"))]
BoxAt(k, p, x) ==
  LET lb == FDiv(x, p.h)  n == MeshOf(x)  lbcm == FMul(lb, k.Mpc)
      mbox == FMul(RhoMatter(k, p), FPow(lbcm, 3))
      ls == FMul(FDiv(lb, n), k.Mpc)
      ts == FDiv(2, FDiv(FMul(FMul(3, FSqrt(p.Om)), FMul(H0(p), 100000)), k.Mpc))
  IN [boxsize |-> x, LB |-> lb, nbox |-> n, M_box |-> mbox, M_grid |-> FDiv(mbox, FPow(n, 3)), lscale |-> ls, tscale |-> ts]
VelConvert(b, z) == FDiv(FMul(FDiv(b.lscale, b.tscale), FAdd(1, z)), 100000)

\* ---- unit conversions with the factors in force
Convert(k, p, b, fn, x, z) ==
  CASE fn = "gridpos_to_mpc" -> FDiv(FMul(x, b.lscale), k.Mpc)
    [] fn = "gridvel_to_kms" -> FMul(x, VelConvert(b, z))
    [] fn = "gridmass_to_msol" -> FDiv(FLn(FMul(FMul(x, b.M_grid), k.solar_masses_per_gram)), FLn(10))
    [] fn = "Mgrid_2_Msolar" -> FMul(x, FMul(b.M_grid, k.solar_masses_per_gram))
    [] fn = "Msolar_2_Mgrid" -> FDiv(x, FMul(b.M_grid, k.solar_masses_per_gram))
    [] fn = "mean_dt" -> MeanDtZ(k, p, z)
    [] fn = "Hz" -> Hz(p, z)
    [] fn = "hubble_parameter" -> Hz(p, z)
    [] fn = "velconvert" -> VelConvert(b, z)
    [] OTHER -> 0
=============================================================================
