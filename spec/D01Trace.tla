------------------------------ MODULE D01Trace ------------------------------
EXTENDS Signal, Grid, TraceDriver
D01Begin(s) == s.init
D01After(t, e) == IF e.op = "cosmology" THEN e.q ELSE t
Cells(e) == DOMAIN e.xi
CellDt(q, e, i, z) == IF e.full THEN DtFullCell(q, e.xi[i], e.rho[i], e.T[i], z, e.correct) ELSE DtCell(q, e.xi[i], e.rho[i], z)
Near(a, b, r) == FNear(a, b, FLit(r), FLit("1e-13"))
Dark(e, i) == FEq(e.xi[i], 1) \/ FEq(e.rho[i], 0)
Shape(e) == e.out.shape = e.shape
Zero(e) == \A i \in Cells(e) : Dark(e, i) => FEq(e.out.v[i], 0)
\* the redshift of a snapshot: as given, or the first file that names one
ZOf(e) == IF FLe(0, e.z) THEN e.z ELSE IF FLe(0, e.zx) THEN e.zx ELSE IF FLe(0, e.zd) THEN e.zd ELSE e.zt
Snapshot(q, e) ==
  LET z == ZOf(e) IN
  IF FLt(z, 0) THEN (IF e.exc = "" THEN {"missing_redshift_refused"} ELSE {})
  ELSE IF e.exc # "" THEN {"no_exception"}
  ELSE IF ~ Shape(e) THEN {"shape"}
  ELSE Broken([cell_value |-> \A i \in Cells(e) : Dark(e, i) \/ Near(e.out.v[i], CellDt(q, e, i, z), "1e-9"), dark_cells_exactly_zero |-> Zero(e),
               inputs_untouched |-> e.same])
Light(q, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE IF ~ Shape(e) THEN {"shape"}
  ELSE LET los == e.los + 1  n == e.shape[los]  cell == FDiv(q.LB, e.shape[(los % 3) + 1])
           zs == TLCEval([k \in 1..n |-> SliceZ(q, e.zlow, cell, k - 1)])
       IN Broken([cell_value_at_its_slice_redshift |-> \A i \in Cells(e) : Dark(e, i) \/
                     LET z == zs[Co(e.shape, i, los) + 1]  r == IF e.full THEN "1e-3" ELSE "2e-5"
                     IN IF ~ e.full THEN Near(e.out.v[i], CellDt(q, e, i, z), "2e-5")
                        ELSE LET w == DtCell(q, e.xi[i], e.rho[i], z)   \* cancellation in 1 - Tcmb/Ts: relative to the unsuppressed signal
                                 Ts == IF e.correct THEN TNeutral(q, e.xi[i], e.T[i], z) ELSE e.T[i]
                             IN FNear(e.out.v[i], CellDt(q, e, i, z), FLit("2e-5"), FAbs(FMul(FMul(w, FLit("2e-5")), FAdd(1, FDiv(FMul(q.Tcmb0, FAdd(1, z)), Ts))))),
                  dark_cells_exactly_zero |-> Zero(e), inputs_untouched |-> e.same])
Mean(q, e) == IF e.exc # "" THEN {"no_exception"} ELSE
  Broken([mean_signal |-> Len(e.v) = Len(e.z) /\ \A i \in DOMAIN e.z : Near(e.v[i], MeanDt(q, e.z[i]), "1e-11")])
\* cold haloes on a grid, all neutral: the mean signal times the baryon overdensity their mass stands for
HaloSignal(q, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE LET side == FDiv(e.L, e.n)  mean == FMul(e.rho, FMul(side, FMul(side, side))) IN
       IF e.out.shape # <<e.n, e.n, e.n>> THEN {"shape"}
       ELSE Broken([halo_cell_value |-> \A i \in DOMAIN e.m : FNear(e.out.v[i], FMul(MeanDt(q, e.z), FDiv(e.m[i], mean)), FLit("1e-8"), F(0)), inputs_untouched |-> e.same])
D01Verdict(t, e) ==
  CASE e.op = "cosmology" -> {}
    [] e.op = "snapshot" -> Snapshot(t, e)
    [] e.op = "lightcone" -> Light(t, e)
    [] e.op = "halo_signal" -> HaloSignal(t, e)
    [] e.op = "mean_dt" -> Mean(t, e)
    [] OTHER -> {"unknown_event"}
=============================================================================
