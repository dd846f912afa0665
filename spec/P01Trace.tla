------------------------------ MODULE P01Trace ------------------------------
(* P01: posterior summaries and plotted boxes.  State: the distributions added so
   far, by label, with their intervals.                                          *)
EXTENDS Posterior, TraceDriver
P01Begin(s) == [dists |-> <<>>]
\* a label used again replaces the distribution and keeps its place
P01After(t, e) == IF e.op # "summary" \/ e.exc # "" THEN t ELSE
  LET n == [label |-> e.label, cis |-> e.cis]  at == {k \in DOMAIN t.dists : t.dists[k].label = e.label} IN
  IF at = {} THEN [t EXCEPT !.dists = Append(@, n)] ELSE [t EXCEPT !.dists[CHOOSE k \in at : TRUE] = n]
Tol == FLit("1e-8")
Near(a, b, scale) == FNear(a, b, Tol, FMul(Tol, scale))
Same(a, b) == (FIsNaN(a) /\ FIsNaN(b)) \/ FEq(a, b)
Summary(t, e) ==
  LET d == e.dims  w == Norm(e.w)  x == TLCEval([p \in 1..d |-> Column(e.x, p)])
      m == TLCEval([p \in 1..d |-> WMean(x[p], w)])  C == TLCEval([p \in 1..d |-> [q \in 1..d |-> WCov(x[p], x[q], w)]])
      top == TLCEval([p \in 1..d |-> MaxAbs(x[p])])
      Q == <<FLit("0.025"), FLit("0.16"), FLit("0.5"), FLit("0.84"), FLit("0.975")>>
      got(p) == <<e.cis[p].lo2, e.cis[p].lo1, e.cis[p].median, e.cis[p].hi1, e.cis[p].hi2>>
      det == Det(C)  diag == FoldLeft(LAMBDA a, p : FMul(a, C[p][p]), F(1), [p \in 1..d |-> p])
      regular == FLt(FMul(FLit("1e-4"), diag), det)
      delta == [p \in 1..d |-> FSub(m[p], e.truth[p])] IN
  IF Len(e.means) # d \/ Len(e.cis) # d \/ Len(e.cov) # d \/ Len(e.sigmas) # d \/ \E p \in 1..d : Len(e.cov[p]) # d THEN {"one_entry_per_parameter"}
  ELSE Broken([means |-> \A p \in 1..d : Near(e.means[p], m[p], top[p]),
     covariance |-> \A p, q \in 1..d : Near(e.cov[p][q], C[p][q], FMul(top[p], top[q])),
     sigmas |-> \A p \in 1..d : Near(FMul(e.sigmas[p], e.sigmas[p]), C[p][p], FMul(top[p], top[p])),
     nested |-> \A p \in 1..d : \A k \in 1..4 : FLe(got(p)[k], got(p)[k + 1]),
     quantiles |-> IF e.ties THEN \A p \in 1..d : LET l == Levels(x[p], w) IN \A k \in 1..5 : QuantileMay(l, Q[k], got(p)[k])
                   ELSE \A p \in 1..d : LET s == Sorted(x[p], w) IN \A k \in 1..5 : Near(got(p)[k], Quantile(s, Q[k]), top[p])])
    \cup IF Len(e.truth) = 0 THEN {} ELSE
     IF Len(e.z) # d \/ Len(e.pit) # d \/ Len(e.c68) # d \/ Len(e.c95) # d THEN {"one_diagnostic_per_parameter"} ELSE
     Broken([z_scores |-> \A p \in 1..d : Near(FMul(e.z[p], FSqrt(C[p][p])), FAbs(delta[p]), FAdd(top[p], FAbs(e.truth[p]))),
      rmse |-> Near(FMul(e.rmse, e.rmse), FDiv(FDot(delta, delta), d), FAdd(1, FDot(top, top))),
      mahalanobis |-> ~regular \/ FNear(FMul(e.maha, e.maha), InverseForm(C, delta), FLit("1e-6"), FLit("1e-6")),
      entropy |-> ~regular \/ FNear(e.entropy, Entropy(C), FLit("1e-6"), FLit("1e-6")),
      coverage |-> \A p \in 1..d : /\ e.c68[p] = (FLe(e.cis[p].lo1, e.truth[p]) /\ FLe(e.truth[p], e.cis[p].hi1))
                                   /\ e.c95[p] = (FLe(e.cis[p].lo2, e.truth[p]) /\ FLe(e.truth[p], e.cis[p].hi2)),
      pit |-> \A p \in 1..d : LET l == Levels(x[p], w)  s == Sorted(x[p], w) IN
                /\ CdfMay(l, e.truth[p], e.pit[p])
                /\ e.ties \/ FLt(e.truth[p], s.v[1]) \/ Near(e.pit[p], CdfAt(s, e.truth[p]), 1)])
\* printed with four decimals
Chain(t, e) ==
  LET w == Norm(e.w)  d == e.dims  tol == FLit("6e-5") IN
  IF Len(e.rows) # d THEN {"one_line_per_parameter"}
  ELSE Broken([printed |-> \A p \in 1..d : LET x == Column(e.x, p)  s == Sorted(x, w)  m == WMean(x, w)  r == e.rows[p] IN
     /\ FNear(r[1], m, 0, tol) /\ FNear(r[2], FSub(Quantile(s, FLit("0.84")), m), 0, tol)
     /\ FNear(r[3], FSub(m, Quantile(s, FLit("0.16"))), 0, tol)])
\* every distribution on its own line, in the order of adding, where it has that parameter
Forest(t, e) ==
  LET n == Len(t.dists)  rows(p) == SelectSeq([i \in 1..n |-> i], LAMBDA i : Len(t.dists[i].cis) >= p)
      dmax == FoldLeft(LAMBDA a, q : IF Len(q.cis) > a THEN Len(q.cis) ELSE a, 0, t.dists)
      bar(i, p, g) == LET c == t.dists[i].cis[p]  r == FMul(FLit("1e-9"), FAdd(FAdd(FAbs(c.lo2), FAbs(c.hi2)), FAbs(c.median))) IN
        /\ FEq(g.y, i - 1) /\ FNear(g.lo2, c.lo2, 0, r) /\ FNear(g.hi2, c.hi2, 0, r) /\ FNear(g.lo1, c.lo1, 0, r) /\ FNear(g.hi1, c.hi1, 0, r) /\ FEq(g.at, c.median) IN
  IF Len(e.drawn) # dmax THEN {"one_panel_per_parameter"}
  ELSE Broken([lines |-> \A p \in 1..dmax : Len(e.drawn[p]) = Len(rows(p)),
               intervals |-> \A p \in 1..dmax : Len(e.drawn[p]) # Len(rows(p)) \/ \A k \in DOMAIN rows(p) : bar(rows(p)[k], p, e.drawn[p][k]),
               truths |-> \A p \in 1..dmax : IF p <= Len(e.truth) THEN Len(e.vlines[p]) = 1 /\ FEq(e.vlines[p][1], e.truth[p]) ELSE e.vlines[p] = <<>>,
               labels |-> e.names = [i \in 1..n |-> t.dists[i].label]])
SliceDrawn(t, e) ==
  LET x == Slice(e.shape, e.x, e.los + 1, e.num)  rest == RemoveAt(e.shape, e.los + 1) IN
  IF e.got # rest \/ Len(e.v) # Len(x) THEN {"slice_shape"}
  ELSE Broken([slice_values |-> \A i \in DOMAIN x : IF e.log THEN FNear(e.v[i], FDiv(FLn(x[i]), FLn(10)), FLit("1e-9"), FLit("1e-9")) ELSE FEq(e.v[i], x[i]),
               extent |-> FEq(e.ext[1], 0) /\ FEq(e.ext[3], 0) /\ FEq(e.ext[2], e.LB) /\ FEq(e.ext[4], e.LB), can_be_drawn |-> e.drawn])
Hist(t, e) ==
  LET a == MinOf(e.x)  b == MaxOf(e.x)
      edges == TLCEval(IF e.bins = "edges" THEN e.edges ELSE IF e.bins = "number" THEN Even(a, b, e.n) ELSE IF e.kind = "xfrac" THEN Even(0, 1, 29) ELSE Even(a, b, 30))
      n == Len(edges) - 1  slack == FMul(FLit("1e-9"), FSub(edges[n + 1], edges[1])) IN
  IF Len(e.heights) # n \/ Len(e.at) # n + 1 THEN {"bins_asked_for"}
  ELSE Broken([bin_edges |-> \A k \in 1..(n + 1) : FNear(e.at[k], edges[k], 0, slack),
               every_cell_counted |-> \A k \in 1..n : LET c == InBin(e.x, edges[k], edges[k + 1], slack) IN FLe(c.sure, e.heights[k]) /\ FLe(e.heights[k], c.may),
               once |-> LET c == InBin(e.x, edges[1], edges[n + 1], slack)  s == FSum(e.heights) IN FLe(c.sure, s) /\ FLe(s, c.may),
               can_be_drawn |-> e.drawn])
P01Verdict(t, e) ==
  IF e.op = "unchanged" THEN Broken([inputs_untouched |-> e.same])
  ELSE IF e.exc # "" THEN {"no_exception"}
  ELSE CASE e.op = "summary" -> Summary(t, e)
    [] e.op = "chain" -> Chain(t, e)
    [] e.op = "forest" -> Forest(t, e)
    [] e.op = "slice" -> SliceDrawn(t, e)
    [] e.op = "hist" -> Hist(t, e)
=============================================================================
