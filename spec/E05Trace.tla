------------------------------ MODULE E05Trace ------------------------------
(* E05: Gaussian random fields have the spectrum asked for.                    *)
EXTENDS Fields, TraceDriver
E05Begin(s) == s.init
E05After(t, e) == t
\* the spectrum asked for: amplitude times a power of k, cut off beyond a wavenumber when one is given
Asked(p, k) == IF p.kind = "table" THEN TableP(p.k, p.p, k) ELSE
  IF p.cut # <<>> /\ FLt(p.cut[1], k) THEN F(0) ELSE FMul(p.a, FExp(FMul(p.n, FLn(k))))
Unsure(p, k) == (p.kind = "table" /\ TableEdge(p.k, k)) \/ (p.kind = "law" /\ p.cut # <<>> /\ FNear(p.cut[1], k, FLit("1e-9"), F(0)))
\* two fields of the same random numbers
RatioEv(e) ==
  LET sh == e.sh  n == Size(sh)  ct == TLCEval(CosTab(n))  sn == TLCEval(SinTab(n))
      ka == TLCEval(KTab(sh, e.La))  kb == TLCEval(KTab(sh, e.Lb))
      s == FMul(FLit("1e-8"), FSum([i \in DOMAIN e.b |-> FAbs(e.b[i])])) IN
  IF e.rshape # sh THEN {"field_shape"} ELSE
  Broken([same_colour |-> \A i \in 1..n : IsZero(sh, i) \/ Unsure(e.pa, ka[i]) \/ Unsure(e.pb, kb[i]) \/
     LET A == DFT(sh, ct, sn, e.a, i)  B == DFT(sh, ct, sn, e.b, i)  ca == Colour(sh, e.La, Asked(e.pa, ka[i]))  cb == Colour(sh, e.Lb, Asked(e.pb, kb[i]))  r == FDiv(cb, ca) IN
     FNear(B[1], FMul(r, A[1]), FLit("1e-7"), s) /\ FNear(B[2], FMul(r, A[2]), FLit("1e-7"), s)])
\* many fields
PowerEv(e) ==
  LET sh == e.sh  n == Size(sh)  kt == TLCEval(KTab(sh, e.L))
      S == {i \in 1..n : ~ IsZero(sh, i) /\ ~ Unsure(e.p, kt[i])}
      want == TLCEval([i \in 1..n |-> IF i \in S THEN FMul(Asked(e.p, kt[i]), FDiv(FMul(n, F(n)), Volume(e.L))) ELSE F(0)])
      T == {i \in S : FLt(0, want[i])}  L == SetToSeq(T)
      ratio(i) == FDiv(e.power[i], want[i]) IN
  Broken([mode_power |-> \A i \in T : FNear(ratio(i), 1, F(0), e.each),
          no_power |-> \A i \in S \ T : FLe(e.power[i], FMul(FLit("1e-18"), FSum(e.power))),
          total_power |-> T = {} \/ FNear(FDiv(FSum([k \in DOMAIN L |-> ratio(L[k])]), Len(L)), 1, F(0), e.all),
          zero_mean |-> \A i \in T : FLt(FDiv(FMul(e.mean[i], e.fields), want[i]), 30),
          independent |-> \A i \in T : FLt(FMul(e.corr[i], e.fields), 30),
          modes_independent |-> FLt(FMul(e.cross, e.fields), 30)])
RepeatEv(e) == Broken([same_seed_same_field |-> e.same, seed_is_the_generators |-> e.global, other_draws_differ |-> e.differ, inputs_untouched |-> e.untouched])
E05Verdict(t, e) ==
  IF e.op = "refuses" THEN Broken([bad_input_refused |-> e.exc # ""])
  ELSE IF e.exc # "" THEN {"no_exception"}
  ELSE CASE e.op = "ratio" -> RatioEv(e)
    [] e.op = "power" -> PowerEv(e)
    [] e.op = "repeat" -> RepeatEv(e)
    [] OTHER -> {"unknown_event"}
=============================================================================
