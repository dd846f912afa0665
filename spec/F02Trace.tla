------------------------------ MODULE F02Trace ------------------------------
(* F02: a directory that files are added to and removed from; listings and
   coeval cubes must follow what it holds at the time of the call.
   State: [fs : name -> [kind, z, sh, v, vc]], q constants.                   *)
EXTENDS Directory, TraceDriver, Grid
F02Begin(s) == [fs |-> <<>>, q |-> s.init]
Ent(e) == [kind |-> e.kind, z |-> IF e.ztext = "" THEN -1 ELSE FLit(e.ztext), sh |-> e.sh, v |-> e.v, vc |-> e.vc]
F02After(t, e) ==
  CASE e.op = "add" -> [t EXCEPT !.fs = [x \in DOMAIN @ \cup {e.name} |-> IF x = e.name THEN Ent(e) ELSE t.fs[x]]]
    [] e.op = "remove" -> [t EXCEPT !.fs = [x \in DOMAIN @ \ {e.name} |-> t.fs[x]]]
    [] e.op = "constants" -> [t EXCEPT !.q = e.q]
    [] OTHER -> t
Files(t, kind) == SetToSeq({n \in DOMAIN t.fs : t.fs[n].kind = kind})
Zs(t, kind) == LET f == Files(t, kind) IN [i \in DOMAIN f |-> t.fs[f[i]].z]
ListV(t, e) ==
  LET zs == Zs(t, e.kind) IN
  IF Refused(zs, e.lo, e.hi, e.bracket) THEN (IF e.exc = "" THEN {"impossible_bracket_refused"} ELSE {})
  ELSE IF e.exc # "" THEN {"no_exception"}
  ELSE Broken([every_redshift_once_in_order |-> IsListing(e.r, zs, e.lo, e.hi, e.bracket)])
NameV(e) == IF e.exc # "" THEN {"no_exception"} ELSE Broken([redshift_in_name |-> FEq(e.r, NameZ(e.name))])
\* ---- coeval cubes: value of cell i of the file of that kind at redshift index k ----
DensFactor(q, mx) == FMul(FMul(q.rhoc, q.OmB), FPow(FDiv(mx, q.nbox), 3))
Rel(t, mx) == FAdd(FLit("1e-6"), FDiv(FLit("6e-45"), DensFactor(t.q, mx)))
At(t, kind, z) == LET f == Files(t, kind) IN t.fs[f[CHOOSE i \in DOMAIN f : FEq(t.fs[f[i]].z, z)]]
Stored(t, kind, z, i) ==
  LET f == At(t, kind, z) IN
  CASE kind = "xfrac" -> f.v[i]
    [] kind = "dens" -> FMul(f.v[i], DensFactor(t.q, f.sh[1]))
    [] kind = "vel" -> LET d == At(t, "dens", z).v IN FDiv(FMul(f.v[i], f.vc), FDiv(d[1 + ((i - 1) % Len(d))], 8))
\* the cube at z: stored, or interpolated between the true neighbours (mode "previous": the next higher snapshot, scaled)
Cube(t, kind, z, mode) ==
  LET zs == Zs(t, kind)  n == Len(At(t, kind, zs[1]).v) IN
  IF Exact(zs, z) # {} THEN [i \in 1..n |-> Stored(t, kind, z, i)]
  ELSE LET zh == zs[Upper(zs, z)] IN
    IF mode = "previous" THEN [i \in 1..n |-> FMul(Stored(t, kind, zh, i), FPow(FDiv(FAdd(1, zh), FAdd(1, z)), 3))]
    ELSE LET zl == zs[Lower(zs, z)] IN [i \in 1..n |-> Lin(zl, zh, z, Stored(t, kind, zl, i), Stored(t, kind, zh, i))]
CanServe(t, kind, z, mode) == LET zs == Zs(t, kind) IN IF mode = "previous" THEN Exact(zs, z) # {} \/ Above(zs, z) # {} ELSE Answerable(zs, z)
Mean(s) == FDiv(FSum(s), Len(s))
Big(s) == FoldLeft(LAMBDA m, x : FMax(m, FAbs(x)), 0, s)
SlowMean(s, sh, k) == Mean([j \in 1..(Len(s) \div sh[3]) |-> s[(j - 1) * sh[3] + k]])
CoevalV(t, e) ==
  LET kinds == CASE e.what \in {"xfrac", "vel", "dens"} -> <<e.what>> [] e.what = "overdens" -> <<"dens">> [] e.what = "dt" -> <<"xfrac", "dens">>
      M(k) == IF k = "dens" THEN e.mode ELSE "linear" IN
  IF ~ \A i \in DOMAIN kinds : CanServe(t, kinds[i], e.z, M(kinds[i])) THEN (IF e.exc = "" THEN {"outside_range_refused"} ELSE {})
  ELSE IF e.exc # "" THEN {"no_exception"}
  ELSE LET c == [i \in DOMAIN kinds |-> Cube(t, kinds[i], e.z, M(kinds[i]))]
           sh == At(t, kinds[1], Zs(t, kinds[1])[1]).sh
           rel == IF e.what = "xfrac" THEN FLit("1e-13") ELSE IF e.what = "vel" THEN FLit("2e-6") ELSE Rel(t, sh[1])
           full == IF e.what = "overdens" THEN [i \in DOMAIN c[1] |-> FSub(FDiv(c[1][i], Mean(c[1])), 1)]
                   ELSE IF e.what = "dt" THEN LET m == FMul(t.q.rhoc, t.q.OmB) IN [i \in DOMAIN c[1] |-> FMul(FMul(e.md, FSub(1, c[1][i])), FDiv(c[2][i], m))]
                   ELSE c[1]
           w == IF e.sub = "none" THEN full ELSE IF e.sub = "all" THEN [i \in DOMAIN full |-> FSub(full[i], Mean(full))]
                ELSE [i \in DOMAIN full |-> FSub(full[i], SlowMean(full, sh, ((i - 1) % sh[3]) + 1))]
           scale == IF e.what = "overdens" THEN 1 ELSE Big(full)
       IN IF e.r.shape # sh \/ Len(e.r.v) # Len(w) THEN {"shape"}
          ELSE Broken([neighbouring_snapshots |-> \A i \in DOMAIN w : FNear(e.r.v[i], w[i], rel, FMul(FMul(rel, 4), scale))])
\* the deprecated boxes: every slice between the density neighbours of its redshift
BoxV(t, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE Broken([slices_between_neighbours |-> \A k \in DOMAIN e.z : LET c == Cube(t, e.kind, e.z[k], "linear")  n == e.n  s == (k - 1) % n
      IN \A j \in 1..n * n : FNear(e.r[k][j], c[(j - 1) * n + s + 1], FLit("1e-5"), FMul(FLit("1e-5"), Big(c)))])
F02Verdict(t, e) ==
  CASE e.op \in {"add", "remove", "constants"} -> {}
    [] e.op = "list" -> ListV(t, e)
    [] e.op = "name" -> NameV(e)
    [] e.op = "coeval" -> CoevalV(t, e)
    [] e.op = "box" -> BoxV(t, e)
    [] OTHER -> {"unknown_event"}
=============================================================================
