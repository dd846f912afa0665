------------------------------ MODULE E01Trace ------------------------------
(* E01: the abstract state is the box and the n-dimensional spectrum last
   returned for it; binned spectra must be averages over it.                  *)
EXTENDS Modes, TraceDriver
E01Begin(s) ==
  LET sh == s.init.shape  L == s.init.L IN
  [sh |-> sh, L |-> L, k |-> KTab(sh, L), ct |-> CosTab(Size(sh)), st |-> SinTab(Size(sh)), P |-> <<>>, scale |-> 0, fine |-> [p |-> <<>>, k |-> <<>>]]
E01After(t, e) ==
  IF e.op = "nd" THEN IF e.exc # "" \/ Len(e.v) # Size(t.sh) THEN [t EXCEPT !.P = <<>>] ELSE [t EXCEPT !.P = e.v, !.scale = FMaxOf([i \in DOMAIN e.v |-> FAbs(e.v[i])])]
  ELSE IF e.op = "radial" /\ e.exc = "" THEN [t EXCEPT !.fine = [p |-> e.p, k |-> e.k]] ELSE t
Nd(t, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE IF e.shape # t.sh \/ Len(e.v) # Size(t.sh) THEN {"nd_shape"}
  ELSE LET amp == FAdd(FDot(e.a, e.a), FDot(e.b, e.b))
           atol == FMul(FLit("1e-12"), FMul(FDiv(Volume(t.L), Size(t.sh)), amp))
           w(i) == PowerAt(t.sh, t.L, t.ct, t.st, e.a, e.b, e.auto, i) IN
  Broken([power_of_each_mode |-> \A m \in DOMAIN e.modes : FNear(e.v[e.modes[m]], w(e.modes[m]), FLit("1e-9"), atol),
          \* Parseval: nothing is lost between the sampled modes
          total_power |-> FNear(FSum(e.v), FMul(Volume(t.L), FDiv(FDot(e.a, e.b), Size(t.sh))), FLit("1e-9"), atol)])
Agree(t, v, w) == FNear(v, w, FLit("1e-9"), FMul(FLit("1e-12"), t.scale))
EdgesOf(t, e) ==
  IF e.kind = "edges" THEN e.edges ELSE IF e.kind = "mixed" THEN MixedEdges(t.L, t.k, e.count, e.bp) ELSE AutoEdges(t.L, t.k, e.count, e.kind)
Centres(b, k, n) == Len(k) = n /\ \A i \in 1..n : FNear(k[i], FDiv(FAdd(b[i], b[i + 1]), 2), FLit("1e-9"), FLit("1e-15"))
Radial(t, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE LET b == EdgesOf(t, e)  n == Len(b) - 1
           w(i) == TLCEval([j \in DOMAIN t.k |-> Where(t.k[j], b[i], b[i + 1])])
           all == TLCEval([j \in DOMAIN t.k |-> Where(t.k[j], b[1], b[n + 1])]) IN
       IF Len(e.p) # n \/ Len(e.n) # n THEN {"one_value_per_bin"}
       ELSE Broken([mean_over_modes |-> \A i \in 1..n : BinOk(w(i), e.n[i], e.p[i], LAMBDA s : Mean(t.P, s), LAMBDA v, w_, s : Agree(t, v, w_)),
               every_mode_once |-> LET m == FoldLeft(LAMBDA x, y : x + y, 0, e.n) IN m >= Len(Sel(all, "in")) /\ m <= Len(Sel(all, "in")) + Len(Sel(all, "tie")),
               bin_centres |-> Centres(b, e.k, n)])
PerPar(t, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE LET ax == OtherAxes(t.sh, e.los)
           kp == TLCEval([j \in DOMAIN t.k |-> K(t.sh, t.L, j, ax)])
           kz == TLCEval([j \in DOMAIN t.k |-> FAbs(Kc(t.sh, t.L, j, e.los + 1))])
           nz(s) == SelectSeq(s, LAMBDA x : ~ FEq(x, 0))
           auto(s, n) == IF e.kind = "linear" THEN LinEdges(FMinOf(nz(s)), FMaxOf(s), n) ELSE LogEdges(FMinOf(nz(s)), FMaxOf(s), n)
           bp == IF e.kind = "edges" THEN e.edges[1] ELSE auto(kp, e.count[1])
           bz == IF e.kind = "edges" THEN e.edges[2] ELSE auto(kz, e.count[2])
           n == Len(bp) - 1  m == Len(bz) - 1
           \* the automatic bins start and end at the smallest and largest wavenumber present, both included
           wh(x, b, i) == IF e.kind # "edges" /\ ((i = 1 /\ Close(x, b[1])) \/ (i = Len(b) - 1 /\ Close(x, b[Len(b)]))) THEN "in" ELSE Where(x, b[i], b[i + 1])
           wp == TLCEval([i \in 1..n |-> [j \in DOMAIN kp |-> wh(kp[j], bp, i)]])
           wz == TLCEval([i \in 1..m |-> [j \in DOMAIN kz |-> wh(kz[j], bz, i)]])
           mid(b, i) == IF e.kind = "log" THEN FSqrt(FMul(b[i], b[i + 1])) ELSE FDiv(FAdd(b[i], b[i + 1]), 2) IN
       IF Len(e.p) # n \/ Len(e.n) # n \/ Len(e.kper) # n \/ Len(e.kpar) # m \/ (\E i \in 1..n : Len(e.p[i]) # m \/ Len(e.n[i]) # m) THEN {"one_value_per_bin"}
       ELSE Broken([mean_over_modes |-> \A i \in 1..n, l \in 1..m : BinOk([j \in DOMAIN kp |-> Both(wp[i][j], wz[l][j])], e.n[i][l], e.p[i][l], LAMBDA s : Mean(t.P, s), LAMBDA v, w_, s : Agree(t, v, w_)),
                    bin_centres |-> (\A i \in 1..n : FNear(e.kper[i], mid(bp, i), FLit("1e-9"), 0)) /\ (\A i \in 1..m : FNear(e.kpar[i], mid(bz, i), FLit("1e-9"), 0))])
Same(t, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE Broken([invariant |-> Len(e.a) = Len(e.b) /\ \A i \in DOMAIN e.a : (FIsNaN(e.a[i]) /\ FIsNaN(e.b[i])) \/ FNear(e.a[i], e.b[i], FLit("1e-9"), FMul(FLit("1e-12"), t.scale))])
\* the wavenumbers on their own: components along each axis and their magnitude
Wavenumbers(t, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE IF Len(e.comp) # Len(t.sh) \/ Len(e.k) # Len(t.k) \/ (\E c \in DOMAIN e.comp : Len(e.comp[c]) # Len(t.k)) THEN {"one_wavenumber_per_cell"}
  ELSE Broken([wavenumber_components |-> \A c \in DOMAIN e.comp, j \in DOMAIN t.k : FNear(e.comp[c][j], Kc(t.sh, t.L, j, c), FLit("1e-11"), 0),
               wavenumber_magnitude |-> \A j \in DOMAIN t.k : FNear(e.k[j], t.k[j], FLit("1e-11"), 0)])
BinEdges(t, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE LET b == EdgesOf(t, e) IN
       Broken([documented_edges |-> Len(e.e) = Len(b) /\ \A i \in DOMAIN b : FNear(e.e[i], b[i], FLit("1e-9"), 0)])
\* P(k) k^3 / 2 pi^2, interpolated between the centres of the fine bins of the spectrum measured just before
Dimensionless(t, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE LET k == t.fine.k  n == Len(k)
           d == TLCEval([i \in 1..n |-> FDiv(FMul(FMul(t.fine.p[i], FMul(k[i], FMul(k[i], k[i]))), 2), FMul(Pi2, Pi2))])
           big == FMaxOf([i \in 1..n |-> IF FIsNaN(d[i]) THEN F(0) ELSE FAbs(d[i])])
           lin(j, x) == FAdd(d[j], FMul(FSub(d[j + 1], d[j]), FDiv(FSub(x, k[j]), FSub(k[j + 1], k[j]))))
           agree(v, w) == IF FIsNaN(v) THEN FIsNaN(w) ELSE FNear(v, w, FLit("1e-8"), FMul(FLit("1e-9"), big))
           ok(x, v) ==
             \/ \E j \in 1..n : Close(k[j], x) /\ agree(v, d[j])   \* at a bin centre
             \/ \E j \in 1..(n - 1) :
                         /\ FLe(k[j], x) \/ Close(k[j], x)
                         /\ FLe(x, k[j + 1]) \/ Close(x, k[j + 1])
                         /\ agree(v, lin(j, x))
           grid == IF e.kind = "log" THEN LogEdges(k[2], k[n], e.count - 1) ELSE LinEdges(k[2], k[n], e.count - 1) IN
       IF Len(e.p) # e.count \/ Len(e.k) # e.count THEN {"one_value_per_bin"}
       ELSE Broken([dimensionless_wavenumbers |-> \A i \in DOMAIN grid : FNear(e.k[i], grid[i], FLit("1e-9"), 0),
                    dimensionless_power |-> \A i \in DOMAIN e.k : ok(e.k[i], e.p[i])])
E01Verdict(t, e) ==
  IF e.op \in {"radial", "perpar", "dimensionless"} /\ t.P = <<>> THEN {}   \* the spectrum itself was already judged wrong
  ELSE CASE e.op = "nd" -> Nd(t, e)
    [] e.op = "radial" -> Radial(t, e)
    [] e.op = "perpar" -> PerPar(t, e)
    [] e.op = "wavenumbers" -> Wavenumbers(t, e)
    [] e.op = "edges" -> BinEdges(t, e)
    [] e.op = "dimensionless" -> Dimensionless(t, e)
    [] e.op = "same" -> Same(t, e)
    [] e.op = "unchanged" -> Broken([inputs_untouched |-> e.same])
    [] OTHER -> {"unknown_event"}
=============================================================================
