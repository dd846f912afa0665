------------------------------- MODULE UvCache -------------------------------
(* The uv-map cache.  A request asks for maps of some redshifts with some
   observing parameters; what a cache file holds is a set of redshift keys made
   with one set of parameters.                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt
\* the redshifts that have to be computed, in request order
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>> ELSE LET r == Dedup(Front(s)) IN IF Last(s) \in ToSet(r) THEN r ELSE Append(r, Last(s))
Missing(zs, stored) == SelectSeq(Dedup(zs), LAMBDA z : z \notin stored)
\* "serial": one by one, saved every c; "chunks": c at a time in parallel, saved after each; "parallel": all at once
Mode(jobs, c) == IF jobs > 1 THEN (IF c > 0 THEN "chunks" ELSE "parallel") ELSE "serial"
\* how many of n completed computations a checkpoint has certainly covered
Due(mode, c, n) == IF mode = "parallel" \/ c = 0 THEN 0 ELSE (n \div c) * c
\* of the computations that were begun in the order `begun`, those certainly saved once n of them have completed
DueKeys(mode, c, begun, n) == ToSet(SubSeq(begun, 1, Due(mode, c, n)))
=============================================================================
