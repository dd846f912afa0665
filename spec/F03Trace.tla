------------------------------ MODULE F03Trace ------------------------------
(* F03: halo catalogues read into objects (each read replaces what the object
   held, whatever was read or failed before) and put on grids.               *)
EXTENDS Catalogue, TraceDriver
F03Begin(s) == 0
F03After(t, e) == 0
Cut(e) == [min |-> FDiv(e.min, e.unit), max |-> [i \in DOMAIN e.max |-> FDiv(e.max[i], e.unit)]]
Close(a, b, rtol) == FNear(a, b, rtol, 0)
PosOk(r, x, e) == \A a \in 1..3 : LET y == FMul(x[a], e.scale) IN IF e.wrap THEN InBox(r[a], e.L) /\ IsImage(r[a], y, e.L, e.rtol) ELSE FNear(r[a], y, e.rtol, 0)
VecOk(r, x, f, e) == \A a \in 1..3 : FNear(r[a], FMul(x[a], f), e.rtol, 0)
ReadV(e) ==
  IF e.fault THEN {}
  ELSE IF e.exc # "" THEN {"readable"}
  ELSE LET s == Selected(e.lines, Cut(e), e.maxn, e.start)  h == e.r
           all == Passing(e.lines, Cut(e), e.start) IN
    IF Len(h) # Len(s) THEN {"exactly_the_selected_haloes"}
    ELSE Broken([file_order_and_mass |-> \A i \in DOMAIN s : Close(h[i].m, FMul(e.lines[s[i]].m, e.mfac), e.rtol),
                 positions_in_box |-> \A i \in DOMAIN s : PosOk(h[i].pos, e.lines[s[i]].pos, e) /\ PosOk(h[i].cm, e.lines[s[i]].cm, e),
                 velocities |-> \A i \in DOMAIN s : VecOk(h[i].vel, e.lines[s[i]].vel, e.vfac, e),
                 angular_momentum |-> \A i \in DOMAIN s : VecOk(h[i].l, e.lines[s[i]].l, e.lfac, e),
                 radius |-> \A i \in DOMAIN s : h[i].r = <<>> \/ FNear(h[i].r[1], FMul(e.lines[s[i]].r, e.rfac), e.rtol, 0),
                 counted |-> e.nhalo = <<>> \/ e.nhalo[1] = Len(s),
                 reports_whether_all_were_read |-> e.all = <<>> \/ ((e.all[1] => Len(s) = Len(all)) /\ (~ e.all[1] => e.maxn >= 0 /\ Len(s) = e.maxn)),
                 columns |-> e.get = <<>> \/ (Len(e.get[1]) = Len(s) /\ \A i \in DOMAIN s : FEq(e.get[1][i], h[i].m))])
\* grid coordinates of the haloes
Coord(e, x) == CASE e.unitname = "mpc" -> FDiv(FMul(x, e.n), e.box)
                 [] e.unitname = "cm" -> FDiv(FMul(FDiv(x, FLit("3.085677581491367e24")), e.n), e.box)
                 [] OTHER -> x
Pos(e) == TLCEval([i \in DOMAIN e.pos |-> [a \in 1..3 |-> Coord(e, e.pos[i][a])]])
Stat(e, w, s) == CASE e.stat = "sum" -> FSum(Vals(w, s)) [] e.stat = "count" -> Len(s) [] e.stat = "mean" -> FDiv(FSum(Vals(w, s)), Len(s))
Tol(w, s) == FMul(FLit("1e-12"), FSum([k \in DOMAIN s |-> FAbs(w[s[k]])]))
W(e) == TLCEval([i \in DOMAIN e.w |-> FMul(e.w[i], e.wfac)])
GridOk(e, up) == LET c == OnGrid(Pos(e), e.n, up)  w == W(e) IN
  \A j \in 1..Len(e.r.v) : LET s == In(c, j) IN
    IF e.stat = "mean" /\ s = <<>> THEN FIsNaN(e.r.v[j]) ELSE FNear(e.r.v[j], Stat(e, w, s), FLit("1e-12"), Tol(w, s))
GridV(e) ==
  IF e.exc # "" THEN {"accepted"}
  ELSE IF e.r.shape # <<e.n, e.n, e.n>> THEN {"grid_shape"}
  ELSE Broken([own_haloes_only |-> GridOk(e, TRUE) \/ GridOk(e, FALSE),
               total_conserved |-> e.stat = "mean" \/ LET al == TLCEval([i \in DOMAIN e.pos |-> i]) IN FNear(FSum(e.r.v), Stat(e, W(e), al), FLit("1e-12"), Tol(W(e), al)),
               edges_of_the_box |-> \A x \in ToSet(e.edges) : Len(x) = e.n + 1 /\ \A k \in 1..(e.n + 1) : FNear(x[k], k - 1, 0, FLit("1e-9"))])
\* the list form: the occupied cells with their sums
ListOk(e, up) == LET c == OnGrid(Pos(e), e.n, up)  w == W(e)  sh == <<e.n, e.n, e.n>>
                     f == TLCEval([k \in DOMAIN e.cells |-> 1 + e.cells[k][1] * Stride(sh, 1) + e.cells[k][2] * Stride(sh, 2) + e.cells[k][3]]) IN
  /\ Len(e.vals) = Len(f) /\ Cardinality(ToSet(f)) = Len(f)
  /\ \A k \in DOMAIN f : FNear(e.vals[k], FSum(Vals(w, In(c, f[k]))), FLit("1e-12"), Tol(w, In(c, f[k])))
  /\ \A j \in 1..(e.n * e.n * e.n) : j \in ToSet(f) \/ FNear(0, FSum(Vals(w, In(c, j))), 0, Tol(w, In(c, j)))
ListV(e) == IF e.exc # "" THEN {"accepted"} ELSE Broken([occupied_cells_and_sums |-> ListOk(e, TRUE) \/ ListOk(e, FALSE)])
F03Verdict(t, e) == CASE e.op = "read" -> ReadV(e) [] e.op = "grid" -> GridV(e) [] e.op = "glist" -> ListV(e) [] OTHER -> {}
=============================================================================
