------------------------------ MODULE B02Trace ------------------------------
(* B02: per session one field, threshold and neighbour convention; the state
   carries the complex, its Euler characteristic and the component counts.     *)
EXTENDS Complex, Flt, TraceDriver
B02Begin(s) ==
  LET i == s.init  m == [n \in DOMAIN i.v |-> FLt(i.thres, i.v[n])]  face == i.neighbors \in {4, 6}
      c == IF face THEN 1 ELSE 2  mm == IF face THEN m ELSE [n \in DOMAIN m |-> ~ m[n]]
      cm == IF Len(i.shape) = 3 THEN CubeMapOf(i.shape, mm) ELSE <<>>
  IN [marked |-> m, shape |-> i.shape, cm |-> cm, dcm |-> IF face \/ Len(i.shape) # 3 THEN cm ELSE CubeMapOf(i.shape, m),
      chi |-> EulerOf(cm), b0 |-> NRegions(i.shape, c, m), b2 |-> NRegions(i.shape, c, [n \in DOMAIN m |-> ~ m[n]])]
B02After(t, e) == t
B02Verdict(t, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE CASE e.op = "euler" -> Broken([euler_is_V_E_F_C |-> FEq(e.v, t.chi)])
    [] e.op = "cubemap" -> Broken([cubemap_shape |-> e.cm.shape = Double(t.shape), cubemap_is_complex |-> e.cm.v = t.dcm])
    [] e.op = "betti0" -> Broken([betti0_counts_regions |-> FEq(e.v, t.b0)])
    [] e.op = "betti2" -> Broken([betti2_counts_cavities |-> FEq(e.v, t.b2)])
    [] e.op = "betti1" -> \* any of the three may have been passed in
         Broken([betti1_from_others |-> FEq(e.v, FSub(FAdd(IF e.b0 = "none" THEN t.b0 ELSE e.b0v, IF e.b2 = "none" THEN t.b2 ELSE e.b2v),
                                                      IF e.chi = "none" THEN t.chi ELSE e.chiv))])
    [] e.op = "unchanged" -> Broken([input_untouched |-> e.same])
    [] OTHER -> {"unknown_event"}
=============================================================================
