------------------------------ MODULE X02Trace ------------------------------
(* X02: primary beams and foreground maps.  State: the constants in force.     *)
EXTENDS Filters, TraceDriver
X02Begin(s) == s.init
X02After(t, e) == t
Rt == FLit("5e-5")            \* distances come from a table of the cosmology
NullOf(q, e, z) == IF e.null # <<>> THEN e.null[1] ELSE Null(q, z, e.D)
\* a step changes where rounding may decide; nothing is said of a beam that falls between the cells
Agree(kind, n, L, null, v, w, i) == ~ FEq(w, w) \/ (kind = "step" /\ FNear(Radius(n, L, i), FDiv(null, 2), FLit("5e-5"), F(0))) \/ FNear(v, w, FLit("1e-3"), Rt)
BeamEv(q, e) ==
  LET n == e.n  null == NullOf(q, e, e.z)  b == BeamMap(e.kind, n, e.L, null) IN
  IF e.rshape # <<n, n>> THEN {"beam_shape"} ELSE
  Broken([null |-> FNear(e.nullr, Null(q, e.z, e.D), Rt, F(0)),
          beam |-> \A i \in DOMAIN e.r : Agree(e.kind, n, e.L, null, e.r[i], b[i], i)])
\* arrays: sky cells in order, channels of the declared axis; a is the array and r the result, channel by channel
ApplyEv(q, e) ==
  LET n == e.n IN
  IF e.rshape # e.shape THEN {"array_shape"} ELSE
  Broken([inputs_untouched |-> e.same,
          beamed |-> Len(e.a) = Len(e.zs) /\ \A c \in DOMAIN e.zs : LET null == NullOf(q, e, e.zs[c])  b == BeamMap(e.kind, n, e.L, null) IN
             \A i \in 1..n * n : ~ FEq(b[i], b[i]) \/ Agree(e.kind, n, e.L, null, 0, 1, i) \/ FNear(e.r[c][i], FMul(b[i], e.a[c][i]), FLit("1e-3"), FMul(Rt, FAbs(e.a[c][i])))])
SynchEv(q, e) ==
  LET n == e.n  ct == TLCEval(CosTab(n))  sn == TLCEval(SinTab(n)) IN
  IF e.rshape # (IF Len(e.zs) = 1 THEN <<n, n>> ELSE <<n, n, Len(e.zs)>>) THEN {"map_shape"} ELSE
  Broken([same_seed_same_map |-> e.again, seed_is_the_generators |-> e.global, other_draws_differ |-> e.differ,
          spectrum |-> \A c \in DOMAIN e.zs : LET z == e.zs[c]  A == TLCEval([i \in 1..n * n |-> SynchAmp(q, n, e.L, z, i)])  f == FDiv(FLit("1e6"), PerPixel(q, n, z, e.L))
                           top == FMul(FMul(f, FLit("1e-6")), FSum([i \in 1..n * n |-> FAbs(FMul(A[i], FMul(FRat(1, n * n), e.X[i])))])) IN
             \A x \in 1..n * n : FNear(e.r[(x - 1) * Len(e.zs) + c], FMul(f, SynchCell(n, ct, sn, A, e.X, e.Y, x)), FLit("2e-4"), top)])
SourceEv(q, e) ==
  LET n == e.n  S == TLCEval(Fluxes(e.bins))  z0 == FMinOf(e.zs)  no == SourceNo(q, S, e.L, z0) IN
  IF e.rshape # (IF Len(e.zs) = 1 THEN <<n, n>> ELSE <<n, n, Len(e.zs)>>) THEN {"map_shape"} ELSE
  Broken([same_seed_same_map |-> e.again,
          number |-> FNear(no, Len(e.src), Rt, F(1)),
          sources |-> \A c \in DOMAIN e.zs : LET m == TLCEval(PointMap(q, n, e.L, e.zs[c], e.src)) IN \A x \in 1..n * n : FNear(e.r[(x - 1) * Len(e.zs) + c], m[x], FLit("2e-4"), F(0))])
X02Verdict(q, e) ==
  IF e.op = "refuses" THEN Broken([bad_input_refused |-> e.exc # ""])
  ELSE IF e.exc # "" THEN {"no_exception"}
  ELSE CASE e.op = "beam" -> BeamEv(q, e)
    [] e.op = "apply" -> ApplyEv(q, e)
    [] e.op = "synch" -> SynchEv(q, e)
    [] e.op = "sources" -> SourceEv(q, e)
    [] OTHER -> {"unknown_event"}
=============================================================================
