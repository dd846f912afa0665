------------------------------ MODULE G01Trace ------------------------------
(* G01: the durable state is, per cache file, the observing parameters it was
   made with and the set of redshift keys it holds; what a key holds is fixed
   by a direct computation (the table of the session).                        *)
EXTENDS UvCache, TraceDriver, Flt
G01Begin(s) == [fs |-> <<>>, tab |-> s.init.tab]
Prior(t, p) == IF p \in DOMAIN t.fs THEN t.fs[p].keys ELSE {}
KeysOf(l) == {l[i].key : i \in DOMAIN l}
Put(f, p, c) == [x \in DOMAIN f \cup {p} |-> IF x = p THEN c ELSE f[x]]
Refused(t, e) == e.path \in DOMAIN t.fs /\ t.fs[e.path].p # e.p
G01After(t, e) ==
  IF e.op # "request" \/ e.path = "" \/ Refused(t, e) \/ ~ e.disk.exists \/ ~ e.disk.readable THEN t
  ELSE [t EXCEPT !.fs = Put(@, e.path, [p |-> e.p, keys |-> KeysOf(e.disk.maps)])]
SameMap(m, w) == m.shape = w.shape /\ \A i \in DOMAIN w.v : FNear(m.v[i], w.v[i], FLit("1e-6"), 0)
\* every map carries what a direct computation gives
Right(t, e, l) == \A i \in DOMAIN l : \E j \in DOMAIN t.tab : t.tab[j].p = e.p /\ t.tab[j].key = l[i].key /\ SameMap(l[i].m, t.tab[j].m)
Begun(e) == [i \in DOMAIN e.log |-> e.log[i].key]
M(e) == Mode(e.jobs, e.c)
\* what the file must hold when the i-th computation begins
Certain(t, e, i) == Prior(t, e.path) \cup DueKeys(M(e), e.c, Begun(e), i - 1)
Log(t, e) == [never_recomputed |-> \A i \in DOMAIN e.log : e.log[i].key \in ToSet(e.zs) \ Prior(t, e.path),
              checkpoint_on_disk |-> e.path = "" \/ \A i \in DOMAIN e.log : (Certain(t, e, i) = {} \/ e.log[i].readable) /\ (e.fault = "save" \/ Certain(t, e, i) \subseteq ToSet(e.log[i].keys))]
OkV(t, e) ==
  LET all == Prior(t, e.path) \cup ToSet(e.zs) IN
  Log(t, e) @@
  [returned_keys |-> e.via = "noise" \/ KeysOf(e.ret) = all,
   returned_maps |-> Right(t, e, e.ret),
   file_complete |-> e.path = "" \/ (e.disk.readable /\ KeysOf(e.disk.maps) = all),
   file_maps |-> e.path = "" \/ Right(t, e, e.disk.maps)]
Floor(t, e) == Prior(t, e.path) \cup UNION {ToSet(e.log[i].keys) : i \in DOMAIN e.log}
               \cup (IF e.fault = "save" \/ e.log = <<>> THEN {} ELSE DueKeys(M(e), e.c, Begun(e), Len(e.log) - 1))
DiedV(t, e) ==
  IF e.path = "" THEN {} ELSE
  Broken(Log(t, e) @@
  [readable |-> IF e.path \in DOMAIN t.fs \/ Floor(t, e) # {} THEN e.disk.exists /\ e.disk.readable ELSE e.disk.exists => e.disk.readable,
   nothing_lost |-> Floor(t, e) \subseteq KeysOf(e.disk.maps),
   nothing_else |-> KeysOf(e.disk.maps) \subseteq Prior(t, e.path) \cup ToSet(e.zs),
   file_maps |-> Right(t, e, e.disk.maps)])
RefusedV(e) == Broken([refused |-> e.exc = "ValueError", untouched |-> e.disk.same, nothing_computed |-> e.log = <<>>])
G01Verdict(t, e) ==
  CASE e.op = "request" ->
         IF Refused(t, e) THEN (IF e.fault # "" THEN Broken([untouched |-> e.disk.same]) ELSE RefusedV(e))
         ELSE IF e.exc = "" THEN Broken(OkV(t, e))
         ELSE IF e.fault = "" THEN {"no_exception"}
         ELSE DiedV(t, e)
    [] OTHER -> {"unknown_event"}
=============================================================================
