------------------------------ MODULE X01Trace ------------------------------
(* X01: foreground filters.  State: the constants in force.                    *)
EXTENDS Filters, TraceDriver
X01Begin(s) == s.init
X01After(t, e) == t
KminOf(q, p) == IF p.kmin # <<>> THEN p.kmin[1] ELSE SmallBase(q, p.z, p.base)
\* weight of cell x of an n x n x m array: the middle channels of the cube
CellOf(q, p, n, m, kmin, x) ==
  LET k == ((x - 1) % m) + ((n \div 2) - (m \div 2))  j == ((x - 1) \div m) % n  i == (x - 1) \div (m * n) IN
  IF p.kind = "barrel" THEN Barrel(n, p.L, kmin, i, j) ELSE Diabolo(n, p.L, p.mu, p.soft, kmin, i, j, k)
FilterOf(q, p, n, m) == LET kmin == KminOf(q, p) IN [x \in 1..n * n * m |-> CellOf(q, p, n, m, kmin, x)]
FilterEv(q, e) ==
  IF e.rshape # <<e.n, e.n, e.m>> THEN {"filter_shape"} ELSE
  LET w == TLCEval(FilterOf(q, e.p, e.n, e.m)) IN
  Broken([weights |-> \A x \in DOMAIN e.r : IF w[x].sure THEN FNear(e.r[x], w[x].v, FLit("1e-7"), FLit("1e-12")) ELSE FEq(e.r[x], 0) \/ FNear(e.r[x], w[x].v, FLit("1e-7"), FLit("1e-12")) \/ (~ e.p.soft /\ FEq(e.r[x], 1)),
          no_gain |-> \A x \in DOMAIN e.r : FLe(0, e.r[x]) /\ FLe(e.r[x], 1)])
RemoveEv(q, e) ==
  LET sh == e.sh  n == Size(sh)  ct == TLCEval(CosTab(n))  sn == TLCEval(SinTab(n)) IN
  IF e.rshape # sh THEN {"map_shape"} ELSE
  LET w == TLCEval(IF e.filt # <<>> THEN [x \in 1..n |-> [v |-> e.filt[x], sure |-> TRUE]] ELSE FilterOf(q, e.p, sh[1], sh[3]))
      s == FMul(FLit("1e-9"), FSum([x \in DOMAIN e.d |-> FAbs(e.d[x])])) IN
  Broken([modes |-> \A i \in 1..n : LET o == Opposite(sh, i) IN ~ w[i].sure \/ ~ w[o].sure \/
             LET a == DFT(sh, ct, sn, e.d, i)  b == DFT(sh, ct, sn, e.r, i)  f == FDiv(FAdd(w[i].v, w[o].v), 2) IN
             FNear(b[1], FMul(f, a[1]), FLit("1e-8"), s) /\ FNear(b[2], FMul(f, a[2]), FLit("1e-8"), s)])
\* one channel s of a filtered lightcone, in the transverse modes of the sky
RollEv(q, e) ==
  LET n == e.n  c == e.c  N == e.chans  sky == <<n, n>>  ct == TLCEval(CosTab(n * n))  sn == TLCEval(SinTab(n * n))
      slice(a, z) == TLCEval([i \in 1..n * n |-> a[(i - 1) * N + z]]) IN
  IF e.rshape # <<n, n, N>> THEN {"lightcone_shape"} ELSE
  LET G == TLCEval([z \in 1..N |-> TLCEval([m \in 1..n * n |-> DFT(sky, ct, sn, slice(e.d, z), m)])])
      buf == FRat(BufferSteps(c, e.thr), c)  tap == TLCEval([t \in 1..c |-> Blackman(c, t - 1)])
      om == IF e.om = <<>> THEN q.Om ELSE e.om[1]  slopes == TLCEval([z \in 1..N |-> Slope(om, e.zs[z])])
      s == FMul(FLit("2e-5"), FMul(n, FSum([x \in 1..Len(e.d) |-> FDiv(FAbs(e.d[x]), n)])))
      Mode(z, m) == \* <<Re, Im>>, or empty where rounding decides
        LET p == FDiv(FSqrt(Freq(sky, m, 1) * Freq(sky, m, 1) + Freq(sky, m, 2) * Freq(sky, m, 2)), n)  sl == slopes[Reference(c, z, N)]
            ch == Chunk(c, z)
            O == TLCEval([j \in 1..c |-> Outside(p, FRat(Turn(c, j - 1), c), sl, buf)]) IN
        IF \E j \in 1..c : O[j] = "tie" THEN <<>> ELSE
        LET W == [t \in 1..c |-> IF ch[t] < 1 \/ ch[t] > N THEN F(0) ELSE
                    FMul(FDiv(tap[t], c), FSum([j \in 1..c |-> IF O[j] = "keep" THEN FCos(FDiv(FMul(FMul(2, PiF), (j - 1) * ((c \div 2) - (t - 1))), c)) ELSE F(0)]))]
        IN [h \in 1..2 |-> FSum([t \in 1..c |-> IF ch[t] < 1 \/ ch[t] > N THEN F(0) ELSE FMul(W[t], G[ch[t]][m][h])])] IN
  Broken([channels |-> \A z \in 1..N : LET r == TLCEval(slice(e.r, z)) IN \A m \in 1..n * n : LET w == TLCEval(Mode(z, m)) IN w = <<>> \/
             LET b == DFT(sky, ct, sn, r, m) IN FNear(b[1], w[1], FLit("1e-5"), s) /\ FNear(b[2], w[2], FLit("1e-5"), s)])
X01Verdict(q, e) ==
  IF e.op = "refuses" THEN Broken([bad_input_refused |-> e.exc # ""])
  ELSE IF e.exc # "" THEN {"no_exception"}
  ELSE CASE e.op = "filter" -> FilterEv(q, e)
    [] e.op = "remove" -> RemoveEv(q, e)
    [] e.op = "roll" -> RollEv(q, e)
    [] e.op = "same" -> Broken([inputs_untouched |-> e.ok])
    [] OTHER -> {"unknown_event"}
=============================================================================
