-------------------------------- MODULE Rsd --------------------------------
(* Redshift-space distortion.  The signal of every cell of a sightline is
   carried by np equal particles spread evenly over the cell; they move along
   the sightline by the apparent displacement of their velocity and are counted
   in the cell where they arrive.                                               *)
EXTENDS Cosmo, Grid, SequencesExt
\* apparent displacement (cMpc) of velocity v (km/s) at redshift z
Displacement(q, z, v) ==
  LET zo == FSub(FDiv(FAdd(1, z), FSub(1, FDiv(v, q.c))), 1) IN FDiv(FMul(FAdd(1, zo), v), HzC(q, zo))
\* linear from the first cell of the sightline to the last, for particle k (0-based) of m
Between(d, k, m) ==
  LET n == Len(d)  t == FDiv(FMul(k, n - 1), m - 1)  j0 == FFloor(t)  j == IF j0 > n - 2 THEN n - 2 ELSE j0
      f == FSub(t, j) IN FAdd(FMul(FSub(1, f), d[j + 1]), FMul(f, d[j + 2]))
\* where particle k arrives, in cells
Arrives(d, np, k) == LET m == np * Len(d) IN FAdd(FDiv(FRat(2 * k + 1, 2), np), Between(d, k, m))
Tick == FLit("1e-6")
\* the cells (0-based, unbounded) it may be counted in: two when it stops on a border up to rounding
Lands(p) == LET c == FFloor(p) IN {c} \cup (IF FLt(FSub(p, c), Tick) THEN {c - 1} ELSE {}) \cup (IF FLt(FSub(c + 1, p), Tick) THEN {c + 1} ELSE {})
\* what must and may end up in the cells of a sightline with signal w and displacements d (in cells)
Arrivals(w, d, np, periodic) ==
  LET n == Len(w)  at == [k \in 1..(n * np) |-> {IF periodic THEN c % n ELSE c : c \in Lands(Arrives(d, np, k - 1))}]
      part(k) == FDiv(w[1 + ((k - 1) \div np)], np)
      sure(c) == SelectSeq([k \in DOMAIN at |-> k], LAMBDA k : at[k] = {c})  maybe(c) == SelectSeq([k \in DOMAIN at |-> k], LAMBDA k : c \in at[k] /\ at[k] # {c})
      tot(s, f(_)) == FSum([m \in DOMAIN s |-> f(part(s[m]))]) IN
  [c \in 1..n |-> LET s == tot(sure(c - 1), LAMBDA v : v) IN [lo |-> FAdd(s, tot(maybe(c - 1), LAMBDA v : FMin(v, 0))), hi |-> FAdd(s, tot(maybe(c - 1), LAMBDA v : FMax(v, 0)))]]
\* the sightline (flat indices in order) through cell i along axis a
Sightline(sh, a, i) == [j \in 1..sh[a] |-> i + (j - 1 - Co(sh, i, a)) * Stride(sh, a)]
Starts(sh, a) == {i \in 1..Size(sh) : Co(sh, i, a) = 0}
=============================================================================
