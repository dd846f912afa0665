------------------------------ MODULE S02Trace ------------------------------
(* S02: masks of regions.  State: the field (kind "field") or the box being
   painted (kinds "paint", "bubbles").                                          *)
EXTENDS Regions, TraceDriver
S02Begin(s) == [sh |-> s.init.shape, x |-> s.init.x, whole |-> s.init.whole, i0 |-> s.init]
S02After(t, e) == IF e.op = "paint" /\ e.exc = "" /\ Len(e.v) = Size(t.sh) THEN [t EXCEPT !.x = e.v] ELSE t
Tiny == FLit("1e-9")
\* the mask is a side of threshold th; values at it up to rounding may be on either
IsSide(t, m, th, upper) == \A i \in DOMAIN t.x : FNear(t.x[i], th, Tiny, Tiny) \/ (m[i] <=> (IF upper THEN FLe(t.x[i], th) ELSE FLe(th, t.x[i])))
Shaped(t, e) == e.shape = t.sh /\ Len(e.m) = Len(t.x)
In(x, m) == Pick(x, LAMBDA i : m[i])
Out(x, m) == Pick(x, LAMBDA i : ~ m[i])
\* all marked values on one side of all others
Cuts(x, m, upper) == LET a == In(x, m)  b == Out(x, m) IN a # <<>> /\ b # <<>> /\ IF upper THEN FLt(MaxOf(a), MinOf(b)) ELSE FLt(MaxOf(b), MinOf(a))
Group(x, m, upper) == [i \in DOMAIN x |-> IF m[i] <=> upper THEN 1 ELSE 2]
Tri3(t, e) == LET th == TriThresholds(t.x, e.nb, t.whole) IN Broken([triangle_side |-> \E k \in DOMAIN th : IsSide(t, e.m, th[k], e.upper)])
Tri2(t, e) ==
  LET a == Axis(t.sh, e.axis)  th == [j \in 1..t.sh[a] |-> TriThresholds(Slice(t.sh, t.x, a, j - 1), e.nb, t.whole)] IN
  Broken([median_side |-> (\E j \in DOMAIN th : Len(th[j]) > 1) \/ IsSide(t, e.m, Median([j \in DOMAIN th |-> th[j][1]]), e.upper)])
Perm(t, e) ==
  LET psh == [a \in DOMAIN t.sh |-> t.sh[e.perm[a] + 1]] IN
  Broken([follows_axes |-> Len(e.m) = Len(t.x) /\ Len(e.mp) = Len(t.x) /\
     \A i \in DOMAIN t.x : LET co == [a \in DOMAIN t.sh |-> LET c == Co(psh, i, CHOOSE b \in DOMAIN t.sh : e.perm[b] + 1 = a) IN IF e.flip THEN t.sh[a] - 1 - c ELSE c] IN
         e.mp[i] <=> e.m[CellAt(t.sh, co)]])
Three(t, e) ==
  LET g == [i \in DOMAIN t.x |-> IF e.low[i] THEN 1 ELSE IF e.high[i] THEN 3 ELSE 2] IN
  Broken([clusters_disjoint |-> \A i \in DOMAIN t.x : ~ (e.low[i] /\ e.high[i]),
          lowest |-> Cuts(t.x, e.low, TRUE), highest |-> Cuts(t.x, e.high, FALSE),
          nearest_centre |-> {g[i] : i \in DOMAIN g} # 1..3 \/ Nearest(t.x, g, 3), three |-> {g[i] : i \in DOMAIN g} = 1..3])
Field(t, e) ==
  IF e.op = "perm" THEN Perm(t, e)
  ELSE IF e.op = "km3" THEN Three(t, e)
  ELSE IF ~ Shaped(t, e) THEN {"same_shape"}
  ELSE CASE e.op = "fixed" -> Broken([documented_side |-> e.m = Side(t.x, e.th, e.upper)])
    [] e.op = "tri3" -> Tri3(t, e)
    [] e.op = "tri2" -> Tri2(t, e)
    [] e.op = "km2" -> Broken([reported_threshold |-> e.noth \/ \A i \in DOMAIN t.x : e.m[i] <=> (IF e.upper THEN FLe(t.x[i], e.th) ELSE FLt(e.th, t.x[i])),
                               one_side |-> Cuts(t.x, e.m, e.upper), nearest_centre |-> Cuts(t.x, e.m, e.upper) => Nearest(t.x, Group(t.x, e.m, e.upper), 2)])
    [] e.op = "single" -> Broken([one_region |-> \A i \in DOMAIN e.m : e.m[i]])
\* ---- painting
Paint(t, e) ==
  LET big == \E a \in DOMAIN t.sh : e.ks[a] > t.sh[a] IN
  IF e.exc # "" THEN (IF big THEN {"larger_kernel_refused"} ELSE {"no_exception"})
  ELSE IF Len(e.v) # Size(t.sh) THEN {"same_shape"}
  ELSE LET same(w) == \A i \in DOMAIN w : FNear(e.v[i], w[i], FLit("1e-12"), FLit("1e-12"))
           w == FoldLeft(LAMBDA acc, p : Painted(t.sh, acc, p, e.ks, e.kv), t.x, e.pos)
           \* what the code does (known finding): what was there is doubled with every kernel
           d == FoldLeft(LAMBDA acc, p : Painted(t.sh, [i \in DOMAIN acc |-> FMul(2, acc[i])], p, e.ks, e.kv), t.x, e.pos) IN
       IF same(w) THEN {} ELSE IF same(d) THEN {"earlier_content_doubled"} ELSE {"kernel_added"}
\* ---- the bubble model after 1, 2, 3... bubbles
Share(m) == FRat(Marked(m), Len(m))
Refused(e, m) == LET ball == FMul(FLit("4.1887902047863905"), FMul(e.r, FMul(e.r, e.r))) IN FLe(FMul(FSub(e.share, Share(m)), Len(m)), FMul(ball, e.batch))
\* p -> q is one more ball of the right kind
Step(sh, p, q, r2, free) == \E c \in DOMAIN p : ~ p[c] /\ q[c] /\ q = AddBall(sh, p, c, r2) /\ (free \/ Fits(sh, p, c, r2))
Full(sh, p, r2) == \A c \in DOMAIN p : ~ Fits(sh, p, c, r2)
Rest(t, e, p, q) == p = q /\ (FLe(e.share, Share(p)) \/ (~ e.free /\ Full(t.sh, p, e.r2)))
\* several at once: what is new is made of whole balls
Batch(t, e, p, q) == /\ \A i \in DOMAIN p : p[i] => q[i]
                     /\ LET whole == {c \in DOMAIN q : q[c] /\ ~ p[c] /\ \A i \in BallCells(t.sh, c, e.r2) : q[i]} IN \A i \in DOMAIN q : q[i] /\ ~ p[i] => \E c \in whole : Dist2(t.sh, i, c) <= e.r2
\* one more non-overlapping ball when the box is not seen as periodic (known finding)
FlatDist2(sh, i, j) == LET D[a \in 0..Len(sh)] == IF a = 0 THEN 0 ELSE D[a - 1] + (Co(sh, i, a) - Co(sh, j, a)) * (Co(sh, i, a) - Co(sh, j, a)) IN D[Len(sh)]
FlatFits(sh, m, c, r2) == \A i \in DOMAIN m : FlatDist2(sh, i, c) <= r2 => ~ m[i]
FlatStep(sh, p, q, r2) == \E c \in DOMAIN p : ~ p[c] /\ q[c] /\ q = AddBall(sh, p, c, r2) /\ FlatFits(sh, p, c, r2)
Bubbles(t, e) ==
  LET M == e.masks  p(k) == IF k = 1 THEN e.given ELSE M[k - 1]
      ok(k) == IF Refused(e, e.given) THEN M[k] = e.given
               ELSE IF e.batch > 1 THEN FLe(e.share, Share(p(k))) \/ Batch(t, e, p(k), M[k])
               ELSE IF FLe(e.share, Share(p(k))) THEN k > 1 /\ M[k] = p(k)
               ELSE Step(t.sh, p(k), M[k], e.r2, e.free) \/ Rest(t, e, p(k), M[k])
      flat(k) == ~ e.free /\ FlatStep(t.sh, p(k), M[k], e.r2) IN
  IF \E k \in DOMAIN M : Len(M[k]) # Size(t.sh) THEN {"same_shape"}
  ELSE Broken([binary |-> e.binary, ball_by_ball |-> \A k \in DOMAIN M : ok(k) \/ flat(k), no_overlap_across_boundary |-> \A k \in DOMAIN M : ok(k) \/ ~ flat(k)])
S02Verdict(t, e) ==
  IF e.op = "unchanged" THEN Broken([inputs_untouched |-> e.same])
  ELSE IF e.op = "paint" THEN Paint(t, e)
  ELSE IF e.exc # "" THEN {"no_exception"}
  ELSE CASE e.op = "bubbles" -> Bubbles(t, e)
    [] e.op \in {"fixed", "tri3", "tri2", "km2", "single", "perm", "km3"} -> Field(t, e)
    [] OTHER -> {"unknown_event"}
=============================================================================
