---------------------------- MODULE TraceDriver ----------------------------
(* Trace validation: every session recorded from the real code is walked as a
   behaviour.  A session is [case, init, events]; the abstract state `st`
   starts as Begin(session), each recorded call moves it by After(st, ev) and
   is judged by Verdict(st, ev), the set of names of the clauses it breaks.
   The operators Begin/After/Verdict are supplied by the property's
   specification (cfg substitution).                                         *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS Begin(_), After(_, _), Verdict(_, _)
VARIABLES sid, pos, st, bad

Sessions == ndJsonDeserialize(IOEnv.TRACE_FILE)
dvars == <<sid, pos, st, bad>>

DInit == /\ sid \in 1..Len(Sessions)
         /\ pos = 0
         /\ st = Begin(Sessions[sid])
         /\ bad = {}

DNext == /\ pos < Len(Sessions[sid].events)
         /\ LET e == Sessions[sid].events[pos + 1] IN
              /\ st' = After(st, e)
              /\ bad' = Verdict(st, e)
         /\ pos' = pos + 1
         /\ UNCHANGED sid

DSpec == DInit /\ [][DNext]_dvars

Conforms ==
  \/ bad = {}
  \/ PrintT(<<"@BAD", sid, pos, ToJson(bad)>>) /\ FALSE

DView == <<sid, pos>>
\* the clauses of a record of booleans that are false
Broken(r) == {c \in DOMAIN r : ~ r[c]}
=============================================================================
