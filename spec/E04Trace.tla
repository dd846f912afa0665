------------------------------ MODULE E04Trace ------------------------------
(* E04: bispectra, correlation functions, responses of sub-boxes.             *)
EXTENDS Triple, TraceDriver
E04Begin(s) == s.init
E04After(t, e) == t
Rt == FLit("1e-8")
TopOf(x) == FoldLeft(LAMBDA m, v : FMax(m, FAbs(v)), F(0), x)
Same(a, b, at) == FNear(a, b, Rt, at)
\* the field after its window
BispEv(e) ==
  LET sh == e.sh  n == Size(sh)  ct == TLCEval(CosTab(n))  sn == TLCEval(SinTab(n))  kt == TLCEval(KTab(sh, e.L))
      x == IF e.window = <<>> THEN e.d ELSE [i \in DOMAIN e.d |-> FMul(e.d[i], e.window[i])]
      t == TLCEval([i \in 1..n |-> DFT(sh, ct, sn, x, i)])  u == Unit3(sh, e.L)
      m == e.bins
      eq == e.op = "bisp_k"
      edges == TLCEval(IF eq THEN (LET lo == FDiv(Pi2, FMinOf(e.L)) hi == FDiv(FMaxOf(kt), 2) IN IF e.kind = "linear" THEN LinEdges(lo, hi, m) ELSE LogEdges(lo, hi, m)) ELSE <<>>)
      alpha(i) == IF e.kind = "linear" THEN FMul(FDiv(Pi2, 2), FDiv(i - 1, m - 1)) ELSE FExp(FAdd(FMul(FLn(F(10)), -2), FMul(FDiv(FSub(FLn(FDiv(Pi2, 2)), FMul(FLn(F(10)), -2)), m - 1), i - 1)))
      c1(i) == IF eq THEN FDiv(FAdd(edges[i], edges[i + 1]), 2) ELSE e.k1
      c2(i) == IF eq THEN c1(i) ELSE e.k2
      c3(i) == IF eq THEN c1(i) ELSE Third(e.k1, e.k2, alpha(i))
      w(i) == IF Len(e.dk) = 1 THEN e.dk[1] ELSE e.dk[i]
      scale == FMul(u, LET f == TopOf(e.d) IN FMul(FMul(f, f), FMul(f, FMul(n, F(n)))))
      one(i) == LET A == Shell(kt, c1(i), w(i))  B == IF eq THEN A ELSE Shell(kt, c2(i), w(i))  C == IF eq THEN A ELSE Shell(kt, c3(i), w(i))
                    T == Triangles(sh, A, B, C) IN
        ShellTie(kt, c1(i), w(i)) \/ ShellTie(kt, c2(i), w(i)) \/ ShellTie(kt, c3(i), w(i)) \/
        IF T = {} THEN FIsNaN(e.B[i]) ELSE Same(e.B[i], FMul(u, MeanTriple(sh, t, T)), FMul(FLit("1e-9"), scale)) IN
  IF Len(e.B) # m \/ (IF eq THEN Len(e.k) # m ELSE (Len(e.k) # m \/ Len(e.alpha) # m \/ Len(e.theta) # m)) THEN {"bispectrum_bins"} ELSE
  Broken([wavenumbers |-> IF eq THEN \A i \in 1..m : Same(e.k[i], c1(i), F(0)) ELSE \A i \in 1..m :
             FNear(e.alpha[i], alpha(i), Rt, FLit("1e-12")) /\ FNear(e.theta[i], FSub(FDiv(Pi2, 2), alpha(i)), Rt, FLit("1e-12")) /\ FNear(e.k[i], c3(i), Rt, FLit("1e-6")),
          bispectrum |-> \A i \in 1..m : one(i),
          inputs_untouched |-> e.same])
\* relations between bispectra of related fields
RelEv(e) == LET s == FMul(FLit("1e-7"), FMul(FAbs(e.f), TopOf(SelectSeq(e.a, LAMBDA v : FFinite(v))))) IN
  Broken([relation |-> Len(e.a) = Len(e.b) /\ \A i \in DOMAIN e.a : (FIsNaN(e.a[i]) /\ FIsNaN(e.b[i])) \/ FNear(e.b[i], FMul(e.f, e.a[i]), FLit("1e-6"), s)])
XiEv(e) ==
  LET ok == SelectSeq([i \in DOMAIN e.k |-> i], LAMBDA i : FFinite(e.p[i]))  k == [i \in DOMAIN ok |-> e.k[ok[i]]]  p == [i \in DOMAIN ok |-> e.p[ok[i]]]
      at == FMul(FLit("1e-10"), FSum([i \in DOMAIN ok |-> FAbs(FMul(FMul(k[i], k[i]), FMul(p[i], FMaxOf(k)))) ])) IN
  IF Len(e.xi) # Len(e.r) \/ Len(e.r) # e.m THEN {"distance_bins"} ELSE
  Broken([distances |-> IF e.given # <<>> THEN \A i \in DOMAIN e.r : FEq(e.r[i], e.given[i]) ELSE LET D == Distances(e.L, e.n, e.m, e.kind) IN \A i \in 1..e.m : Same(e.r[i], D[i], F(0)),
          transform |-> \A i \in DOMAIN e.r : Same(e.xi[i], Xi(k, p, e.r[i]), at),
          inputs_untouched |-> e.same])
PairsEv(e) ==
  LET D == e.data  R == e.rand  dd == TLCEval(Flatten(Within(D)))  rr == TLCEval(Flatten(Within(R)))  dr == TLCEval(Between(D, R))  E == e.edges  nb == Len(E) - 1
      tie(s) == \E b \in 1..nb + 1 : \E i \in DOMAIN s : FNear(s[i], E[b], FLit("1e-10"), F(0)) IN
  IF Len(e.xi) # nb \/ Len(e.mid) # nb THEN {"distance_bins"} ELSE
  Broken([centres |-> \A b \in 1..nb : Same(e.mid[b], FDiv(FAdd(E[b], E[b + 1]), 2), F(0)),
          pair_counts |-> tie(dd) \/ tie(rr) \/ tie(dr) \/ \A b \in 1..nb : LET c == Count(rr, E, b) IN
             IF c = 0 THEN ~ FFinite(e.xi[b]) ELSE Same(e.xi[b], LandySzalay(Count(dd, E, b), Count(dr, E, b), c, Len(D), Len(R)), FLit("1e-9")),
          inputs_untouched |-> e.same])
ResponseEv(e) == LET m == Len(e.p[1])  top == TopOf(SelectSeq(e.r, LAMBDA v : FFinite(v))) IN
  Broken([response |-> Len(e.r) = m /\ \A b \in 1..m : LET w == Response(e.p, e.m, b, e.norm) IN (~ FFinite(w) /\ ~ FFinite(e.r[b])) \/ Same(e.r[b], w, FMul(FLit("1e-9"), top)),
          wavenumbers |-> Len(e.k) = m /\ \A b \in 1..m : Same(e.k[b], e.kk[b], F(0)),
          inputs_untouched |-> e.same])
E04Verdict(t, e) ==
  IF e.op = "refuses" THEN Broken([bad_input_refused |-> e.exc # ""])
  ELSE IF e.exc # "" THEN {"no_exception"}
  ELSE CASE e.op \in {"bisp", "bisp_k"} -> BispEv(e)
    [] e.op = "relation" -> RelEv(e)
    [] e.op = "xi" -> XiEv(e)
    [] e.op = "pairs" -> PairsEv(e)
    [] e.op = "response" -> ResponseEv(e)
    [] OTHER -> {"unknown_event"}
=============================================================================
