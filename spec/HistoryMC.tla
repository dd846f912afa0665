----------------------------- MODULE HistoryMC -----------------------------
(* Design model: a library that may keep results of earlier calls.  With keys
   that name everything a result depends on, and results handed out as copies,
   every interleaving of calls, writes, constants and overwritten results
   returns the ideal result and leaves the arrays alone.  Also generates the
   histories replayed on the code.                                            *)
EXTENDS History, TLC, Json, SequencesExt
CONSTANTS NF, Hs, Oms, Boxes, Vers, Seeds, GenLen, Slots
VARIABLES s, store, arrays, got, want, hist
vars == <<s, store, arrays, got, want, hist>>
Ideal(f, a, cfg, seed) == <<f, a, cfg, seed>>
Init == s = Start /\ store = <<>> /\ arrays = 0 /\ got = <<>> /\ want = <<>> /\ hist = <<>>
Call(f, seed) ==
  LET e == [op |-> "call", f |-> f, seed |-> seed]  k == Key(s, e) IN
  /\ store' = IF k \in DOMAIN store THEN store ELSE [x \in DOMAIN store \cup {k} |-> IF x = k THEN Ideal(f, arrays, s.cfg, seed) ELSE store[x]]
  /\ got' = store'[k] /\ want' = Ideal(f, s.ver, s.cfg, seed)
  /\ UNCHANGED <<s, arrays>> /\ hist' = Append(hist, e)
Set(n, v) == LET e == [op |-> "set", name |-> n, v |-> v] IN s' = Move(s, e) /\ UNCHANGED <<store, arrays, got, want>> /\ hist' = Append(hist, e)
Write(v) == LET e == [op |-> "write", ver |-> v] IN s' = Move(s, e) /\ arrays' = v /\ UNCHANGED <<store, got, want>> /\ hist' = Append(hist, e)
\* the user overwrites the last result: a copy, so the store keeps its own
Scribble == got # <<>> /\ got' = <<>> /\ want' = <<>> /\ UNCHANGED <<s, store, arrays>> /\ hist' = Append(hist, [op |-> "scribble"])
Sets == (\E v \in Hs : Set("h", v)) \/ (\E v \in Oms : Set("om", v)) \/ (\E v \in Boxes : Set("box", v))
Next == \/ \E f \in 0..NF - 1, sd \in Seeds : Call(f, sd)
        \/ Sets \/ (\E v \in Vers : Write(v)) \/ Scribble
Spec == Init /\ [][Next]_vars
View == <<s, store, arrays, got, want>>
Bound == Cardinality(DOMAIN store) <= 4 /\ Len(hist) < GenLen
Repeats == got = want
Untouched == arrays = s.ver
Faithful == \A k \in DOMAIN store : store[k] = Ideal(k[1], k[3], k[2], k[4])
\* ---- histories for replay: mostly calls, often one made before
Past == {hist[i].f : i \in {i \in DOMAIN hist : hist[i].op = "call"}}
GenCall(f) == \E sd \in {RandomElement(Seeds)} : Call(f, sd)
GenNext == Len(hist) < GenLen /\
  \/ \E n \in 1..Slots : GenCall(RandomElement(0..NF - 1))
  \/ Past # {} /\ \E n \in 1..Slots : GenCall(RandomElement(Past))
  \/ \E n \in 1..2 : Set("h", RandomElement(Hs)) \/ Set("om", RandomElement(Oms)) \/ Set("box", RandomElement(Boxes))
  \/ \E n \in 1..2 : Write(RandomElement(Vers))
  \/ \E n \in 1..3 : Scribble
GenSpec == Init /\ [][GenNext]_vars
Emit == Len(hist) = GenLen => PrintT(<<"@GEN", ToJson(hist)>>)
=============================================================================
