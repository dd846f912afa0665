------------------------------ MODULE S01Trace ------------------------------
(* S01: per-slice, pooled and per-label statistics.  State: the box, its means
   per label once they have been asked for.                                     *)
EXTENDS Stats, TraceDriver
S01Begin(s) == [sh |-> s.init.shape, x |-> s.init.x, lab |-> s.init.lab, R |-> Ranked(s.init.lab), single |-> s.init.single]
S01After(t, e) == t
Rt(t) == IF t.single THEN FLit("2e-5") ELSE FLit("1e-9")
Agree(t, v, w, scale) == FNear(v, w, Rt(t), FMul(Rt(t), scale))
\* both undefined, or close
Same(v, w, rt, at) == (FIsNaN(v) /\ FIsNaN(w)) \/ FEq(v, w) \/ FNear(v, w, rt, at)
Func(name, p) == CASE name = "mean" -> Mean(p) [] name = "var" -> Var0(p) [] name = "max" -> MaxOf(p) [] name = "sum" -> FSum(p) [] name = "count" -> Len(p)
                   [] name = "std" -> FSqrt(Var0(p))
Slices(t, e) ==
  LET a == Axis(t.sh, e.los)  m == SliceMeans(t.sh, t.x, a)  top == MaxAbs(t.x)
      at(i) == m[Co(t.sh, i, a) + 1] IN
  IF Len(e.v) # Len(t.x) \/ e.shape # t.sh THEN {"same_shape"}
  ELSE IF e.op = "subtract"
  THEN Broken([slice_means_zero |-> LET r == SliceMeans(t.sh, e.v, a) IN \A j \in DOMAIN r : Agree(t, r[j], 0, top),
               nothing_else |-> \A i \in DOMAIN t.x : Agree(t, e.v[i], FSub(t.x[i], at(i)), top)])
  ELSE Broken([own_mean |-> \A i \in DOMAIN t.x : FLt(FAbs(at(i)), FMul(FLit("1e-6"), top)) \/ Agree(t, e.v[i], FSub(FDiv(t.x[i], at(i)), 1), FDiv(top, FAbs(at(i))))])
Along(t, e) ==
  LET a == e.los + 1  top == MaxAbs(t.x)  n == Len(t.x) \div t.sh[a]  scale == IF e.func = "var" THEN FMul(top, top) ELSE IF e.func = "sum" THEN FMul(n, top) ELSE IF e.func = "std" THEN FMul(top, IF t.single THEN 30 ELSE 1) ELSE top IN
  Broken([one_per_slice |-> Len(e.v) = t.sh[a],
          own_slice |-> Len(e.v) # t.sh[a] \/ \A j \in 1..t.sh[a] : Agree(t, e.v[j], Func(e.func, Slice(t.sh, t.x, a, j - 1)), scale)])
\* moments of samples; those with (nearly) no spread have no shape
Moments(t, e) ==
  LET v == Var1(e.x)  top == MaxAbs(e.x)  flat == FLt(v, FMul(FLit("1e-6"), FMul(top, top)))
      tol == IF e.single THEN FLit("1e-3") ELSE FLit("1e-8") IN
  Broken([skewness |-> flat \/ FNear(e.skew, Skew(e.x), tol, tol), kurtosis |-> flat \/ FNear(e.kurt, Kurt(e.x), tol, tol)])
Weighted(t, e) == Broken([mass_weighted |-> FNear(e.v, FDiv(FDot(e.x, e.w), FSum(e.w)), FLit("1e-9"), FLit("1e-12"))])
\* what the parts give against the pooled samples themselves
Combined(t, e) ==
  LET n == [k \in DOMAIN e.parts |-> Len(e.parts[k])]  x == FlattenSeq(e.parts)  top == MaxAbs(x)  rt == FLit("1e-9") IN
  Broken([pooled_mean |-> FNear(e.m, Mean(x), rt, FMul(rt, top)),
          pooled_var |-> Len(x) = 1 \/ FNear(IF e.sd THEN FMul(e.s, e.s) ELSE e.s, Var1(x), rt, FMul(FLit("1e-11"), FMul(top, top)))])
Cell(t, k) == Cells(t.x, t.lab, t.R[k])
PerLabel(t, e) ==
  LET n == Len(t.R)  top == MaxAbs(t.x)  spread == FMul(top, IF t.single THEN 30 ELSE 1) IN
  CASE e.op = "means" -> Broken([label_means |-> Len(e.v) = n /\ \A k \in 1..n : Agree(t, e.v[k], Mean(Cell(t, k)), top)])
    [] e.op = "sigmas" -> Broken([label_sigmas |-> Len(e.v) = n /\ \A k \in 1..n : Agree(t, e.v[k], FSqrt(Var0(Cell(t, k))), spread)])
    [] e.op = "npix" -> Broken([label_counts |-> Len(e.v) = n /\ \A k \in 1..n : FEq(e.v[k], Len(Cell(t, k)))])
    [] e.op = "pixels" -> Broken([label_cells |-> Len(e.v) = n /\ \A k \in 1..n : SameBag(e.v[k], Cell(t, k))])
    [] e.op = "apply" -> Broken([label_func |-> Len(e.v) = n /\ \A k \in 1..n : Agree(t, e.v[k], Func(e.func, Cell(t, k)), FMul(Len(t.x), top))])
    [] e.op = "map" -> Broken([map_of_means |-> e.shape = t.sh /\ Len(e.v) = Len(t.x) /\ \A i \in DOMAIN e.v :
                                  Agree(t, e.v[i], IF e.given = <<>> THEN Mean(Cell(t, Rank(t.lab, i))) ELSE e.given[Rank(t.lab, i)], top)])
    [] e.op = "stitch" -> Broken([below_threshold |-> e.shape = t.sh /\ Len(e.v) = Len(t.x) /\ \A i \in DOMAIN e.v :
                                  LET m == Mean(Cell(t, Rank(t.lab, i)))  c == IF e.given = <<>> THEN Mean(t.x) ELSE e.given[1] IN
                                  Agree(t, m, c, top) \/ ((e.v[i] = 1) <=> FLt(m, c))])
    [] e.op = "see" -> Broken([marks_label |-> e.shape = t.sh /\ Len(e.v) = Len(t.x) /\ \A i \in DOMAIN e.v : e.v[i] = IF t.lab[i] = e.label THEN 1 ELSE 0])
    [] OTHER -> {"unknown_event"}
\* labels sorted by their mean, every column moved alike
Snr(t, e) ==
  LET n == Len(e.means)  entry(s, k) == \E q \in DOMAIN e.means : FEq(e.means[q], e.m[k]) /\ FEq(e.sigmas[q], e.s[k]) /\ FEq(e.npix[q], e.n[k]) /\ (e.cells => SameBag(e.p[k], Cell(t, q))) IN
  IF Len(e.m) # n \/ Len(e.s) # n \/ Len(e.n) # n \/ Len(e.snr) # n \/ (e.cells /\ Len(e.p) # n) THEN {"one_per_label"}
  ELSE Broken([sorted |-> \A k \in 1..(n - 1) : FLe(e.m[k], e.m[k + 1]),
               columns_together |-> \A k \in 1..n : entry(t, k),
               all_labels |-> SameBag(e.m, e.means) /\ SameBag(e.s, e.sigmas) /\ SameBag(e.n, e.npix),
               snr |-> \A k \in 1..n : Same(e.snr[k], FDiv(e.m[k], e.s[k]), FLit("1e-5"), 0)])
\* mean and deviation over the labels that stand out below zero
Estimate(t, e) ==
  LET low == SelectSeq([k \in DOMAIN e.means |-> k], LAMBDA k : FLt(FDiv(e.means[k], e.sigmas[k]), IF FLe(e.thres, 0) THEN e.thres ELSE FNeg(e.thres)))
      m == [k \in DOMAIN low |-> FAbs(e.means[low[k]])]  v == [k \in DOMAIN low |-> FMul(e.sigmas[low[k]], e.sigmas[low[k]])]  n == [k \in DOMAIN low |-> e.npix[low[k]]] IN
  IF low = <<>> THEN Broken([none_stands_out |-> FEq(e.v[1], 0) /\ FEq(e.v[2], 0)])
  ELSE Broken([estimate |-> FNear(e.v[1], CombMean(m, n), FLit("1e-8"), FLit("1e-12")) /\ FNear(FMul(e.v[2], e.v[2]), CombVar(m, v, n), FLit("1e-7"), FLit("1e-12"))])
\* cells of the labels that leak over the border of a true segment
Leak(t, e) ==
  LET N == Len(t.lab)  TR == Ranked(e.truths)
      inter(a, b) == Cardinality({i \in 1..N : e.truths[i] = a /\ t.lab[i] = b})  size(b) == Cardinality({i \in 1..N : t.lab[i] = b})
      u == FSum([q \in 1..(Len(TR) * Len(t.R)) |-> LET a == TR[1 + ((q - 1) \div Len(t.R))]  b == t.R[1 + ((q - 1) % Len(t.R))] IN IF FLt(FMul(e.b, size(b)), inter(a, b)) THEN size(b) ELSE 0]) IN
  Broken([under_segmentation |-> FNear(e.v, FDiv(FSub(u, N), N), FLit("1e-9"), FLit("1e-12"))])
S01Verdict(t, e) ==
  IF e.op = "unchanged" THEN Broken([inputs_untouched |-> e.same])
  ELSE IF e.exc # "" THEN {"no_exception"}
  ELSE CASE e.op \in {"subtract", "overdensity"} -> Slices(t, e)
    [] e.op = "along" -> Along(t, e)
    [] e.op = "moments" -> Moments(t, e)
    [] e.op = "weighted" -> Weighted(t, e)
    [] e.op = "combined" -> Combined(t, e)
    [] e.op = "snr" -> Snr(t, e)
    [] e.op = "estimate" -> Estimate(t, e)
    [] e.op = "leak" -> Leak(t, e)
    [] OTHER -> PerLabel(t, e)
=============================================================================
