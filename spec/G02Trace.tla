------------------------------ MODULE G02Trace ------------------------------
(* G02: recorded coverages are the counts of the tracks of Uv; recorded images
   have exactly the modes Uv keeps.                                           *)
EXTENDS Uv, TraceDriver
G02Begin(s) == s.init
G02After(t, e) == t
Theta(e) == FDiv(e.L, e.cdist)
S(e) == Scaled(e.ants, e.nu, e.dt, e.T, e.dec, Theta(e))
\* radius, in cells, that a longest baseline (km) reaches
Reach(e) == LET lcut == FMul(FMul(FAdd(1, e.z), FDiv(FLit("0.21"), FMul(e.cut[1], 1000))), e.cdist) IN FDiv(e.L, lcut)
Kept(e, sh, i) == IF e.cut = <<>> THEN "in" ELSE LET r == FSqrt(F(Dist2(sh, i))) R == Reach(e) IN IF FNear(r, R, FLit("1e-9"), 0) THEN "tie" ELSE IF FLt(r, R) THEN "in" ELSE "out"
MapV(e) ==
  IF e.exc # "" THEN {"no_exception"} ELSE
  LET s == S(e) sh == <<e.n, e.n>> IN
  IF e.m.shape # sh THEN {"shape"}
  ELSE Broken([antennas |-> e.nant = Len(e.ants)] @@
    (IF Ties(s) THEN [undecided |-> TRUE] ELSE
     LET h == Twice(e.n, Samples(s), e.mirror) nst == Steps(e.T, e.dt) IN
     [counts_every_sample |-> \A i \in DOMAIN h : LET w == FDiv(h[i], 2 * nst) k == Kept(e, sh, i) IN
        k = "tie" \/ (IF k = "out" THEN FEq(e.m.v[i], 0) ELSE FNear(e.m.v[i], w, FLit("1e-6"), 0))]))
\* rotated baselines and baselines themselves
TrackV(e) ==
  IF e.exc # "" THEN {"no_exception"} ELSE
  LET B == Baselines(e.ants, e.nu) nb == Len(B)
      top == FoldLeft(LAMBDA m, b : FMax(m, FMax(FAbs(b[1]), FMax(FAbs(b[2]), FAbs(b[3])))), 0, B) IN
  Broken([baselines |-> e.b.shape = <<nb, 3>> /\ \A q \in 1..nb : \A a \in 1..3 : FNear(e.b.v[(q - 1) * 3 + a], B[q][a], FLit("1e-9"), FMul(FLit("1e-9"), top)),
          rotated |-> Len(e.r.v) = 3 * nb * Len(e.ts) /\ \A t \in DOMAIN e.ts : \A q \in 1..nb : LET w == Rotated(B[q], e.ts[t], e.dt, e.T, e.dec) IN
                         \A a \in 1..3 : FNear(e.r.v[((t - 1) * nb + q - 1) * 3 + a], w[a], FLit("1e-8"), FMul(FLit("1e-8"), top))])
\* hit counts and summed gain products
GainsV(e) ==
  IF e.exc # "" THEN {"no_exception"} ELSE
  LET s == S(e) ss == Samples(s) n == e.n P == Pairs(Len(e.ants)) nb == Len(P)
      h == Twice(n, ss, e.mirror)
      prod(b, c) == LET x == e.g[P[b][1]] y == e.g[P[b][2]] IN
         CASE c = 1 -> FMul(x[1], y[1]) [] c = 2 -> FMul(x[2], y[2]) [] c = 3 -> FMul(x[1], y[2]) [] OTHER -> FMul(x[2], y[1])
      put(c, a, q) == IF ~ Inside2(n, ss[q]) THEN a
                      ELSE LET w == prod(1 + ((q - 1) % nb), c) a1 == [a EXCEPT ![CellOf(n, ss[q])] = FAdd(@, w)]
                           IN IF e.mirror THEN [a1 EXCEPT ![CellOf(n, Mirror(ss[q]))] = FAdd(@, w)] ELSE a1
      sums(c) == FoldLeft(LAMBDA a, q : put(c, a, q), [i \in 1..n * n |-> F(0)], [q \in DOMAIN ss |-> q])
  IN IF e.m.shape # <<n, n, 5>> THEN {"shape"}
     ELSE IF Ties(s) THEN {}
     ELSE Broken([hit_counts |-> \A i \in DOMAIN h : FEq(e.m.v[(i - 1) * 5 + 1], IF e.mirror THEN h[i] ELSE h[i] \div 2),
                  count_map |-> e.c.shape = <<n, n>> /\ \A i \in DOMAIN h : FEq(e.c.v[i], IF e.mirror THEN h[i] ELSE h[i] \div 2),
                  gain_sums |-> e.g = <<>> \/ \A c \in 1..4 : LET w == sums(c) IN \A i \in DOMAIN h : FNear(e.m.v[(i - 1) * 5 + 1 + c], w[i], FLit("1e-9"), FLit("1e-9"))])
StampV(e) ==
  IF e.exc # "" THEN {"no_exception"} ELSE
  LET s == S(e) ss == Samples(s) n == e.n P == Pairs(Len(e.ants)) nb == Len(P) nst == Steps(e.T, e.dt)
      want == {<<(q - 1) \div nb, CellOf(n, ss[q]) - 1, P[1 + ((q - 1) % nb)]>> : q \in {q \in DOMAIN ss : Inside2(n, ss[q])}}
      h == Twice(n, ss, FALSE) IN
  IF Ties(s) THEN {} ELSE
  Broken([steps |-> e.steps = nst,
          every_pair_in_its_cell |-> Len(e.list) = Cardinality(want) /\ {<<e.list[k][1], e.list[k][2] * n + e.list[k][3], <<e.list[k][4], e.list[k][5]>>>> : k \in DOMAIN e.list} = want,
          count_map |-> e.c.shape = <<n, n>> /\ \A i \in DOMAIN h : FEq(e.c.v[i], h[i] \div 2)])
LagrV(e) ==
  IF e.exc # "" THEN {"no_exception"} ELSE
  LET s == S(e) ss == Samples(s) P == Pairs(Len(e.ants)) nb == Len(P) nst == Steps(e.T, e.dt) IN
  IF Ties(s) THEN {} ELSE
  Broken([pairs |-> e.pairs = P,
          positions |-> e.m.shape = <<nst, nb, 2>> /\ \A q \in DOMAIN ss : \A a \in 1..2 :
             LET v == e.m.v[(q - 1) * 2 + a] IN IF Inside2(e.n, ss[q]) THEN FEq(v, ss[q][a]) ELSE FIsNaN(v)])
\* ---- images ----
Top(d) == FoldLeft(LAMBDA m, x : FMax(m, FAbs(x)), F(0), d)
Weight(e) ==
  LET top == FoldLeft(LAMBDA m, x : FMax(m, x), e.w[1], e.w) IN
  CASE e.kind = "mask" -> [i \in DOMAIN e.w |-> IF FEq(e.w[i], 0) THEN F(0) ELSE F(1)]
    [] e.kind = "uv" -> [i \in DOMAIN e.w |-> FDiv(e.w[i], top)]
    [] e.kind = "threshold" -> [i \in DOMAIN e.w |-> IF FLt(e.w[i], e.thr) THEN F(0) ELSE F(1)]
MaskV(e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE IF e.o.shape # e.sh THEN {"shape"}
  ELSE LET A == Applied(e.sh, e.d, Weight(e)) T == Transform(e.sh, e.o.v) tol == FMul(e.tol, FAdd(FSum([i \in DOMAIN e.d |-> FAbs(e.d[i])]), FLit("1e-300"))) IN
       Broken([keeps_exactly_the_sampled_modes |-> \A k \in DOMAIN A : FNear(T[k][1], A[k][1], e.tol, tol) /\ FNear(T[k][2], A[k][2], e.tol, tol),
               inputs_unchanged |-> e.same])
\* baselines beyond a longest one, and zero baseline, removed from a map
CleanV(e) ==
  IF e.exc # "" THEN {"no_exception"} ELSE
  Broken([within_reach |-> e.o.shape = e.sh /\ \A i \in DOMAIN e.w : LET k == Kept(e, e.sh, i) IN
     IF i = 1 THEN FEq(e.o.v[1], 0) ELSE k = "tie" \/ FEq(e.o.v[i], IF k = "in" THEN e.w[i] ELSE 0)])
G02Verdict(t, e) ==
  CASE e.op = "map" -> MapV(e)
    [] e.op = "track" -> TrackV(e)
    [] e.op = "gains" -> GainsV(e)
    [] e.op = "stamp" -> StampV(e)
    [] e.op = "lagr" -> LagrV(e)
    [] e.op = "mask" -> MaskV(e)
    [] e.op = "clean" -> CleanV(e)
    [] e.op = "refused" -> Broken([refused |-> e.exc = "ValueError"])
    [] e.op = "same" -> Broken([same |-> e.same])
    [] OTHER -> {"unknown_event"}
=============================================================================
