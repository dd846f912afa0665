------------------------------ MODULE H01Trace ------------------------------
(* H01: recorded sessions.  State: the session of History and the results so
   far, by key.                                                                *)
EXTENDS History, Flt, TraceDriver
H01Begin(s) == [s |-> Start, memo |-> <<>>]
Called(e) == e.op = "call" /\ e.exc = ""
H01After(t, e) == [s |-> Move(t.s, e),
  memo |-> IF Called(e) /\ Key(t.s, e) \notin DOMAIN t.memo THEN [k \in DOMAIN t.memo \cup {Key(t.s, e)} |-> IF k = Key(t.s, e) THEN e.r ELSE t.memo[k]] ELSE t.memo]
Top(x) == LET P[i \in 0..Len(x)] == IF i = 0 THEN F(0) ELSE IF FFinite(x[i]) THEN FMax(P[i - 1], FAbs(x[i])) ELSE P[i - 1] IN P[Len(x)]
Agree(a, b) == Len(a) = Len(b) /\ LET m == FMul(FLit("1e-10"), Top(b)) IN
  \A i \in DOMAIN a : FEq(a[i], b[i]) \/ (FIsNaN(a[i]) /\ FIsNaN(b[i])) \/ FNear(a[i], b[i], FLit("1e-9"), m)
H01Verdict(t, e) ==
  IF e.op # "call" THEN {}
  ELSE IF e.cfg # t.s.cfg \/ e.ver # t.s.ver THEN {"harness_out_of_step"}
  ELSE IF e.exc # "" THEN {"no_exception"}
  ELSE Broken([inputs_untouched |-> e.same,
               as_in_fresh_session |-> e.refexc = "" /\ e.rshape = e.refshape /\ Agree(e.r, e.ref),
               repeats |-> Key(t.s, e) \in DOMAIN t.memo => Agree(e.r, t.memo[Key(t.s, e)]),
               box_in_force |-> ~ e.hasdef \/ (e.rshape = e.defshape /\ Agree(e.r, e.def))])
=============================================================================
