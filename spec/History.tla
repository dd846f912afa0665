------------------------------ MODULE History ------------------------------
(* A session: a user shares arrays between calls, changes constants, rewrites
   arrays and results.  What a call returns depends on the function, on the
   contents of the arrays (version ver), on the constants in force and, for
   functions that draw random numbers, on the seed set just before.            *)
EXTENDS Integers, Sequences, FiniteSets
Cfg0 == [h |-> 700, om |-> 270, box |-> 244, boxh |-> 700, boxom |-> 270]
\* constants selected with a box freeze the cosmology they saw
SetCfg(c, name, v) ==
  CASE name = "h" -> [c EXCEPT !.h = v]
    [] name = "om" -> [c EXCEPT !.om = v]
    [] name = "box" -> [c EXCEPT !.box = v, !.boxh = c.h, !.boxom = c.om]
Start == [cfg |-> Cfg0, ver |-> 0]
\* e: a recorded or planned action
Move(s, e) ==
  CASE e.op = "set" -> [s EXCEPT !.cfg = SetCfg(s.cfg, e.name, e.v)]
    [] e.op = "write" -> [s EXCEPT !.ver = e.ver]
    [] OTHER -> s        \* calls and overwritten results change nothing
Key(s, e) == <<e.f, s.cfg, s.ver, e.seed>>
=============================================================================
