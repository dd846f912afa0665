------------------------------ MODULE V01Trace ------------------------------
(* V01: redshift-space distortion.  State: the constants and the box.          *)
EXTENDS Rsd, TraceDriver
V01Begin(s) == [q |-> s.init.q, LB |-> s.init.LB, sh |-> s.init.shape, x |-> s.init.x, single |-> s.init.single]
V01After(t, e) == t
Tot(f, ix) == FSum([j \in DOMAIN ix |-> f[ix[j]]])
Distort(t, e) ==
  IF e.shape # t.sh \/ Len(e.r) # Len(t.x) THEN {"same_shape"}
  ELSE LET a == e.los + 1  n == t.sh[a]
           cell == FDiv(t.LB, t.sh[1 + (a % 3)])
           rt == IF t.single THEN FLit("1e-5") ELSE FLit("1e-9")
           zof(i) == IF Len(e.z) = 1 THEN e.z[1] ELSE e.z[Co(t.sh, i, a) + 1]
           top == FMul(n, FoldLeft(LAMBDA m, v : FMax(m, FAbs(v)), F(0), t.x))  slack == FMul(rt, top)
           line(i) == Sightline(t.sh, a, i)
           arr(ix) == Arrivals([j \in 1..n |-> t.x[ix[j]]], [j \in 1..n |-> FDiv(Displacement(t.q, zof(ix[j]), e.v[ix[j]]), cell)], e.np, e.periodic) IN
       Broken([conserved |-> ~ e.periodic \/ \A i \in Starts(t.sh, a) : FNear(Tot(e.r, line(i)), Tot(t.x, line(i)), rt, slack),
               zero_velocity |-> (\E i \in DOMAIN e.v : ~ FEq(e.v[i], 0)) \/ \A i \in DOMAIN t.x : FNear(e.r[i], t.x[i], rt, slack),
               particles |-> \A i \in Starts(t.sh, a) : LET ix == line(i)  w == arr(ix) IN
                   \A j \in 1..n : FLe(FSub(w[j].lo, slack), e.r[ix[j]]) /\ FLe(e.r[ix[j]], FAdd(w[j].hi, slack)),
               rolls |-> e.roll = 0 \/ \A i \in Starts(t.sh, a) : LET ix == line(i) IN
                   \A j \in 1..n : LET src == j - e.roll IN FNear(e.r[ix[j]], IF e.periodic THEN t.x[ix[1 + ((src - 1) % n)]] ELSE IF src \in 1..n THEN t.x[ix[src]] ELSE 0, rt, slack)])
V01Verdict(t, e) ==
  IF e.op = "unchanged" THEN Broken([inputs_untouched |-> e.same])
  ELSE IF e.op = "refuses" THEN Broken([unequal_sides_refused |-> e.exc # ""])
  ELSE IF e.exc # "" THEN {"no_exception"}
  ELSE CASE e.op = "distort" -> Distort(t, e)
    [] OTHER -> {"unknown_event"}
=============================================================================
