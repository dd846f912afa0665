------------------------------ MODULE S03Trace ------------------------------
(* S03: superpixels of a recorded field and what is made of them.  State: the
   field, its labels and the mean of each.                                      *)
EXTENDS Stitch, TraceDriver
S03Begin(s) == LET R == Ranked(s.init.lab) IN [sh |-> s.init.shape, x |-> s.init.x, lab |-> s.init.lab, R |-> R, m |-> LabelMeans(s.init.x, s.init.lab, R), no |-> TLCEval([i \in DOMAIN s.init.lab |-> NumberOf(R, s.init.lab[i])])]
S03After(t, e) == t
Scale(t) == FSum([k \in DOMAIN t.m |-> FAbs(t.m[k])])
Close(t, a, b) == FNear(a, b, FLit("1e-10"), FMul(FLit("1e-11"), Scale(t)))
Unsure(t) == OtsuUnsure(t.m, 256)
BinUnsure(t, ed) == \E k \in DOMAIN t.m, b \in 2..Len(ed) - 1 : Close(t, t.m[k], ed[b]) /\ ~ FEq(t.m[k], ed[b])
\* v marks exactly the cells whose own value (or whose superpixel's mean) lies below th
MarksBelow(t, v, th, own) == \A i \in DOMAIN v : LET y == IF own THEN t.x[i] ELSE t.m[t.no[i]] IN Close(t, y, th) \/ ((v[i] = 1) <=> FLt(y, th))
\* whatever the threshold: superpixels marked as a whole, the lower ones first
WholeAndLowest(t, v) ==
  LET on == {k \in DOMAIN t.m : \E i \in DOMAIN v : t.no[i] = k /\ v[i] = 1} IN
  /\ \A i \in DOMAIN v : (v[i] = 1) <=> (t.no[i] \in on)
  /\ \A p \in on, q \in DOMAIN t.m \ on : FLe(t.m[p], FAdd(t.m[q], FMul(FLit("1e-11"), Scale(t))))
Same(t, e) == e.shape = t.sh /\ Len(e.v) = Len(t.x) /\ \A i \in DOMAIN e.v : e.v[i] \in {0, 1}
Threshold(t, e) ==
  IF Flat(t.m) \/ BinUnsure(t, e.edges) \/ (~ Single(Binned(t.m, e.edges)) /\ Unsure(t)) THEN {}
  ELSE Broken([threshold_of_the_means |-> \E th \in Thresholds(t.m, e.edges) : Close(t, e.th, th)])
Stitched(t, e) ==
  IF ~ Same(t, e) THEN {"mask_of_the_field"}
  ELSE IF Flat(t.m) THEN Broken([nothing_stands_out |-> \A i \in DOMAIN e.v : e.v[i] = 0])
  ELSE Broken([whole_superpixels |-> e.own \/ WholeAndLowest(t, e.v),
               below_its_threshold |-> e.th = <<>> \/ MarksBelow(t, e.v, e.th[1], e.own)])
OtsuV(t, e) ==
  IF ~ Same(t, e) THEN {"mask_of_the_field"}
  ELSE IF Flat(t.m) THEN Broken([nothing_stands_out |-> \A i \in DOMAIN e.v : e.v[i] = 0])
  ELSE Broken([whole_superpixels |-> WholeAndLowest(t, e.v),
               below_its_threshold |-> Unsure(t) \/ \E th \in Otsu(t.m, 256) : MarksBelow(t, e.v, th, FALSE)])
Slic(t, e) == Broken([every_cell_labelled |-> e.shape = e.want, labels_without_gaps |-> {e.lab[i] : i \in DOMAIN e.lab} = 0..(e.n - 1)])
Border(t, e) ==
  LET top == FMaxOf(t.x)  mark == FMul(top, e.factor)  ch == {i \in DOMAIN t.x : ~ FEq(e.v[i], t.x[i])} IN
  IF e.shape # t.sh THEN {"plane_of_the_same_shape"}
  ELSE IF ~ e.mark THEN Broken([only_the_scale |-> FNear(e.v[1], mark, FLit("1e-12"), F(0)) /\ \A i \in DOMAIN t.x : i = 1 \/ FEq(e.v[i], t.x[i])])
  ELSE Broken([marked_above_the_top |-> \A i \in ch : FNear(e.v[i], mark, FLit("1e-12"), F(0)),
               only_borders |-> \A i \in ch : OnBorder(t.sh, t.lab, i),
               every_border |-> \A i, j \in DOMAIN t.x : (Next4(t.sh, i, j) /\ t.lab[i] # t.lab[j]) => (i \in ch \/ j \in ch \/ FEq(mark, t.x[i]) \/ FEq(mark, t.x[j]))])
S03Verdict(t, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE CASE e.op = "threshold" -> Threshold(t, e)
    [] e.op = "stitch" -> Stitched(t, e)
    [] e.op = "otsu" -> OtsuV(t, e)
    [] e.op = "slic" -> Slic(t, e)
    [] e.op = "border" -> Border(t, e)
    [] OTHER -> {"unknown_event"}
=============================================================================
