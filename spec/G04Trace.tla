------------------------------ MODULE G04Trace ------------------------------
(* G04: antenna positions carried between frames, the built-in layouts, and
   baselines.  State: the centre of the built-in arrays.                       *)
EXTENDS Layout, TraceDriver
G04Begin(s) == s.init
G04After(t, e) == t
Tol == FLit("1e-6")           \* metres
Close(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : FNear(p[i], q[i], FLit("1e-13"), Tol)
All(P, Q) == Len(P) = Len(Q) /\ \A i \in DOMAIN P : Close(P[i], Q[i])
Core(t) == OnEarth(t.lat, t.lon, t.h)
InFrame(t, P, unit) ==
  LET o == Core(t) IN
  CASE unit = "enu" -> P
    [] unit = "ecef" -> TLCEval([i \in DOMAIN P |-> ToEarth(P[i], t.lat, t.lon, o)])
    [] unit = "xyz" -> TLCEval([i \in DOMAIN P |-> Turned(ToEarth(P[i], t.lat, t.lon, o), t.lon, o)])
ToCart(e) == Broken([inputs_untouched |-> e.same, on_the_sphere |-> All(e.r, [i \in DOMAIN e.ll |-> OnSphere(e.ll[i][1], e.ll[i][2], 0)])])
ToGeo(e) == Broken([inputs_untouched |-> e.same,
  ranges |-> \A i \in DOMAIN e.r : FLe(FAbs(e.r[i][1]), 180) /\ FLe(FAbs(e.r[i][2]), 90),
  back_again |-> Len(e.r) = Len(e.p) /\ \A i \in DOMAIN e.p : LET q == OnSphere(e.r[i][1], e.r[i][2], e.r[i][3]) IN \A a \in 1..3 : FNear(q[a], e.p[i][a], F(0), FLit("2e-6"))])
Enu(e) == Broken([inputs_untouched |-> e.same, carried_to_the_earth |-> All(e.r, [i \in DOMAIN e.p |-> ToEarth(e.p[i], e.lat, e.lon, e.o)])])
Turn(e) == Broken([inputs_untouched |-> e.same, turned_about_the_axis |-> All(e.r, [i \in DOMAIN e.p |-> Turned(e.p[i], e.lon, e.o)])])
Built(t, e) == Broken([as_many_stations |-> e.n = e.count, stations |-> All(e.r, InFrame(t, e.p, e.unit))])
\* latitude, longitude and height of each station lead back to it
Geodetic(t, e) == LET W == InFrame(t, e.p, "ecef") IN Broken([stations |-> Len(e.r) = Len(W) /\ \A i \in DOMAIN W : LET q == OnEarth(e.r[i][1], e.r[i][2], e.r[i][3]) IN \A a \in 1..3 : FNear(q[a], W[i][a], F(0), FLit("1e-4"))])
Given(e) == Broken([positions_as_given |-> e.count = Len(e.p) /\ All(e.r, e.p)])
\* every ordered pair once
Bases(e) ==
  LET n == Len(e.p)  Q == SetToSeq(PairsOf(n)) IN
  Broken([inputs_untouched |-> e.same, one_per_ordered_pair |-> Len(e.r) = n * (n - 1)
          /\ \A k \in DOMAIN Q : LET b == BaseOf(e.p, Q[k])  same(c) == \A a \in 1..3 : FEq(c[a], b[a]) IN
             Cardinality({j \in DOMAIN e.r : same(e.r[j])}) = Cardinality({m \in DOMAIN Q : \A a \in 1..3 : FEq(BaseOf(e.p, Q[m])[a], b[a])})])
G04Verdict(t, e) ==
  IF e.op = "refuses" THEN Broken([unknown_frame_refused |-> e.exc # ""])
  ELSE IF e.exc # "" THEN {"no_exception"}
  ELSE CASE e.op = "tocart" -> ToCart(e) [] e.op = "togeo" -> ToGeo(e) [] e.op = "enu" -> Enu(e) [] e.op = "turn" -> Turn(e)
    [] e.op = "built" -> Built(t, e) [] e.op = "geodetic" -> Geodetic(t, e) [] e.op = "given" -> Given(e) [] e.op = "bases" -> Bases(e)
    [] OTHER -> {"unknown_event"}
=============================================================================
