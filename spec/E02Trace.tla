------------------------------ MODULE E02Trace ------------------------------
(* E02: angle-resolved spectra.  State: the box and its n-dimensional spectrum.
   A bin is a wavenumber range and a cosine range; the zero mode is in none.   *)
EXTENDS Modes, TraceDriver
E02Begin(s) ==
  LET sh == s.init.shape  L == s.init.L IN [sh |-> sh, L |-> L, k |-> KTab(sh, L), P |-> <<>>, scale |-> 0]
E02After(t, e) ==
  IF e.op # "nd" THEN t
  ELSE IF e.exc # "" \/ Len(e.v) # Size(t.sh) THEN [t EXCEPT !.P = <<>>]
  ELSE [t EXCEPT !.P = e.v, !.scale = FMaxOf([i \in DOMAIN e.v |-> FAbs(e.v[i])])]
KEdges(t, e) == IF e.kind = "edges" THEN e.edges ELSE AutoEdges(t.L, t.k, e.count, e.kind)
MuEdges(e) == IF e.mukind = "edges" THEN e.muedges ELSE IF e.absolute THEN LinEdges(0, 1, e.mucount) ELSE LinEdges(-1, 1, e.mucount)
\* modes that may be in a bin at all
Eligible(t, e) == TLCEval([j \in DOMAIN t.k |-> ~ IsZero(t.sh, j) /\ (e.exclude => ~ PerpZero(t.sh, e.los, j))])
Agree(t, v, w) == FNear(v, w, FLit("1e-9"), FMul(FLit("1e-12"), t.scale))
Centres(b, k, n) == Len(k) = n /\ \A i \in 1..n : FNear(k[i], FDiv(FAdd(b[i], b[i + 1]), 2), FLit("1e-9"), FLit("1e-14"))
MuBins(t, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE LET b == KEdges(t, e)  nk == Len(b) - 1  c == MuEdges(e)  nm == Len(c) - 1
           ok == Eligible(t, e)
           mu == TLCEval([j \in DOMAIN t.k |-> IF ok[j] THEN Mu(t.sh, t.L, t.k, e.los, e.absolute, j) ELSE 0])
           wk == TLCEval([i \in 1..nk |-> [j \in DOMAIN t.k |-> IF ok[j] THEN Where(t.k[j], b[i], b[i + 1]) ELSE "out"]])
           \* cosines 0 and +-1 are exact; on the outer edges, and on inner edges that are given explicitly, they are decided exactly
           exact(j, i) == MuExact(t.sh, e.los, j) /\ (e.mukind = "edges" \/ (FEq(mu[j], 0) /\ i = 1 /\ e.absolute) \/ (FEq(mu[j], 1) /\ i >= nm) \/ (FEq(mu[j], -1) /\ i = 1))
           wm == TLCEval([i \in 1..nm |-> [j \in DOMAIN t.k |-> IF ~ ok[j] THEN "out" ELSE IF exact(j, i) THEN WhereExact(mu[j], c[i], c[i + 1], i = nm) ELSE Where(mu[j], c[i], c[i + 1])]])
           weight(s) == IF e.weights = <<>> THEN Mean(t.P, s) ELSE FDiv(FSum([m \in DOMAIN s |-> FMul(t.P[s[m]], e.weights[s[m]])]), FSum([m \in DOMAIN s |-> e.weights[s[m]]]))
           rowsum(i) == FoldLeft(LAMBDA x, y : x + y, 0, [m \in 1..nm |-> e.n[m][i]])
           covers == FLe(c[1], IF e.absolute THEN 0 ELSE -1) /\ FLe(1, c[nm + 1]) IN
       IF Len(e.p) # nm \/ Len(e.n) # nm \/ (\E i \in 1..nm : Len(e.p[i]) # nk \/ Len(e.n[i]) # nk) THEN {"one_value_per_bin"}
       ELSE Broken([mean_over_modes |-> \A i \in 1..nm, l \in 1..nk :
                       BinOk([j \in DOMAIN t.k |-> Both(wm[i][j], wk[l][j])], e.n[i][l], e.p[i][l], weight, LAMBDA v, w_, s : Agree(t, v, w_)),
                    counts_sum_to_sphere |-> ~ covers \/ \A l \in 1..nk : LET lo == Len(Sel(wk[l], "in"))  hi == lo + Len(Sel(wk[l], "tie")) IN rowsum(l) >= lo /\ rowsum(l) <= hi,
                    all_modes_counted |-> ~ covers \/
                       LET all == TLCEval([j \in DOMAIN t.k |-> IF ok[j] THEN Where(t.k[j], b[1], b[nk + 1]) ELSE "out"])
                           tot == FoldLeft(LAMBDA x, y : x + y, 0, [l \in 1..nk |-> rowsum(l)])
                       IN tot >= Len(Sel(all, "in")) /\ tot <= Len(Sel(all, "in")) + Len(Sel(all, "tie")),
                    bin_centres |-> Centres(b, e.k, nk) /\ Centres(c, e.mu, nm)])
\* projection on the Legendre polynomials; the code's fourth polynomial has coefficients rounded at 1e-6
Poles(t, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE LET b == KEdges(t, e)  nk == Len(b) - 1  ok == Eligible(t, e)
           mu == TLCEval([j \in DOMAIN t.k |-> IF ok[j] THEN Mu(t.sh, t.L, t.k, e.los, TRUE, j) ELSE 0])
           wk == TLCEval([i \in 1..nk |-> [j \in DOMAIN t.k |-> IF ok[j] THEN Where(t.k[j], b[i], b[i + 1]) ELSE "out"]])
           pl == TLCEval([l \in {0, 2, 4} |-> [j \in DOMAIN t.k |-> Legendre(l, mu[j])]])
           den(l, s) == FSum([m \in DOMAIN s |-> FMul(pl[l][s[m]], pl[l][s[m]])])
           nom(l, s) == FSum([m \in DOMAIN s |-> FMul(pl[l][s[m]], t.P[s[m]])])
           slack(l, s) == LET d == den(l, s)  a1 == FSum([m \in DOMAIN s |-> FAbs(pl[l][s[m]])]) IN
             IF l < 4 THEN FMul(FLit("1e-10"), FDiv(FMul(a1, t.scale), d))
             ELSE FMul(FLit("4e-6"), FAdd(FDiv(FMul(Len(s), t.scale), d), FDiv(FMul(2, FMul(FMul(a1, t.scale), a1)), FMul(d, d))))
           agree(l, v, w, s) == FLt(den(l, s), FLit("1e-4")) \/ FNear(v, w, FLit("1e-9"), slack(l, s))
           have(l) == l \in {e.poles[i].l : i \in DOMAIN e.poles}
           vals(l) == (CHOOSE i \in DOMAIN e.poles : e.poles[i].l = l) IN
       IF Len(e.n) # nk \/ \E i \in DOMAIN e.poles : Len(e.poles[i].v) # nk THEN {"one_value_per_bin"}
       ELSE Broken([projection |-> \A l \in {0, 2, 4} : have(l) => \A i \in 1..nk :
                       BinOk(wk[i], e.n[i], e.poles[vals(l)].v[i], LAMBDA s : FDiv(nom(l, s), den(l, s)), LAMBDA v, w, s : agree(l, v, w, s)),
                    mode_counts |-> \A i \in 1..nk : BinOk(wk[i], e.n[i], 0, LAMBDA s : 0, LAMBDA v, w, s : TRUE) \/ (e.n[i] = 0 /\ Len(Sel(wk[i], "in")) = 0),
                    bin_centres |-> Centres(b, e.k, nk)])
\* ratio of the mean over the cosine bins above and below the cut
Ratio(t, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE LET nk == Len(e.k)
           pickm(i, up) == SelectSeq([m \in DOMAIN e.mu |-> m], LAMBDA m : FFinite(e.p[m][i]) /\ (IF up THEN FLe(e.cut, e.mu[m]) ELSE FLt(e.mu[m], e.cut)))
           mean(i, up) == LET s == pickm(i, up) IN FDiv(FSum([m \in DOMAIN s |-> e.p[s[m]][i]]), Len(s)) IN
       Broken([ratio |-> Len(e.r) = nk /\ \A i \in 1..nk : Len(pickm(i, TRUE)) = 0 \/ Len(pickm(i, FALSE)) = 0 \/
                          (LET up == mean(i, TRUE)  dn == mean(i, FALSE) IN FLt(FAbs(dn), FMul(FLit("1e-9"), t.scale)) \/ FNear(e.r[i], FSub(FDiv(up, dn), 1), FLit("1e-8"), FLit("1e-9")))])
E02Verdict(t, e) ==
  IF e.op = "unchanged" THEN Broken([inputs_untouched |-> e.same])
  ELSE IF e.op = "nd" THEN Broken([no_exception |-> e.exc = "", nd_shape |-> Len(e.v) = Size(t.sh)])
  ELSE IF t.P = <<>> THEN {}
  ELSE CASE e.op = "mu" -> MuBins(t, e)
    [] e.op = "poles" -> Poles(t, e)
    [] e.op = "ratio" -> Ratio(t, e)
    [] OTHER -> {"unknown_event"}
=============================================================================
