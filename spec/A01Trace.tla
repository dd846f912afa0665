------------------------------ MODULE A01Trace ------------------------------
(* Trace specification of A01: one session is one lightcone; event "make" is the
   call, each "slice" event one slice of the returned volume.                 *)
EXTENDS Lightcone, Conv, TraceDriver
S == Sessions[sid].init
A01Begin(s) == [w |-> Walk0, k |-> 0, in |-> s.init]
A01After(t, e) ==
  IF e.op = "slice" /\ t.in.expect = "ok" /\ InRange(t.in.zs, e.z)
  THEN [t EXCEPT !.w = WalkStep(t.in.zs, t.w, e.z), !.k = @ + 1] ELSE t
SliceOK(t, e) ==
  LET N == t.in.n  w == WalkStep(t.in.zs, t.w, e.z)
      zl == t.in.zs[w.lo]  zh == t.in.zs[w.hi]
      s == t.k % N
      near(x, y) == FNear(x, y, FLit("2e-6"), FLit("3e-4"))
      ok(c, i, j) ==
        LET a == CellOf(t.in.cubes[w.lo][c], N, t.in.los, s, i, j)
            b == CellOf(t.in.cubes[w.hi][c], N, t.in.los, s, i, j)
            v == e.v[((c - 1) * N + i) * N + j + 1]
        IN \/ near(v, Interp(t.in.interp, e.z, zl, zh, a, b))
           \/ t.in.interp = "step" /\ StepTie(e.z, zl, zh) /\ (near(v, a) \/ near(v, b))
  IN \A c \in 1..t.in.ncomp : \A i, j \in 0..(N - 1) : ok(c, i, j)
\* "step_cell": every cell switches from the high to the low cube somewhere between them, the
\* cells that lie in the largest smoothed values of the high cube first, at evenly spread redshifts
StepCell(t, e) ==
  LET N == t.in.n  w == WalkStep(t.in.zs, t.w, e.z)  s == t.k % N  sh == <<N, N>>
      zl == t.in.zs[w.lo]  zh == t.in.zs[w.hi]
      at(u, i) == CellOf(t.in.cubes[u][1], N, t.in.los, s, (i - 1) \div N, (i - 1) % N)
      a == TLCEval([i \in 1..N * N |-> at(w.lo, i)])  b == TLCEval([i \in 1..N * N |-> at(w.hi, i)])
      near(x, y) == FNear(x, y, FLit("2e-6"), FLit("3e-5"))
      D == {i \in 1..N * N : FLt(FLit("1.001e-3"), FAbs(FSub(b[i], a[i])))}
      unsure == {i \in 1..N * N : FNear(FAbs(FSub(b[i], a[i])), FLit("1e-3"), FLit("1e-3"), F(0))} # {}
      low == {i \in D : near(e.v[i], a[i])}  high == D \ low
      k == TLCEval(Gauss(sh, F(4)))
      sm == TLCEval([i \in 1..N * N |-> ConvAt("same", "circular", sh, sh, sh, b, k, i)])
      tol == FAdd(FLit("3e-9"), FMul(FLit("1e-12"), FSum([i \in 1..N * N |-> FAbs(b[i])])))
      tied == \E p, q \in D : p < q /\ FLe(FAbs(FSub(sm[p], sm[q])), FMul(100, tol))
      m == Cardinality(D)
      f == FDiv(FSub(e.z, zl), FSub(zh, zl))
      want == Cardinality({r \in 0..m - 1 : FLt(FMul(f, m - 1), r)})
  IN Broken([each_cell_from_one_of_the_two |-> \A i \in 1..N * N : near(e.v[i], a[i]) \/ near(e.v[i], b[i]),
             largest_first |-> \A p \in high, q \in low : FLe(sm[p], FAdd(sm[q], tol)),
             evenly_spread |-> unsure \/ tied \/ m < 2 \/ (Cardinality(low) <= want + 1 /\ Cardinality(low) >= want - 1)])
A01Verdict(t, e) ==
  CASE e.op = "make" ->
         Broken([no_exception |-> e.exc = "",
                 shape |-> e.exc # "" \/ e.shape = (IF t.in.ncomp = 3 THEN <<3, t.in.n, t.in.n, e.nz>> ELSE <<t.in.n, t.in.n, e.nz>>),
                 some_slices |-> e.exc # "" \/ e.nz > 0])
    [] e.op = "slice" ->
         IF ~ InRange(t.in.zs, e.z) THEN {"slice_outside_cubes"}
         ELSE IF Len(e.v) # t.in.ncomp * t.in.n * t.in.n THEN {"slice_size"}
         ELSE IF t.in.interp = "step_cell" THEN StepCell(t, e)
         ELSE Broken([interpolates_own_bracket |-> SliceOK(t, e)])
    [] OTHER -> {"unknown_event"}
=============================================================================
