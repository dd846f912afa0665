------------------------------ MODULE Catalogue ------------------------------
(* Halo catalogues and halo grids.
   A catalogue is a sequence of lines; a reader goes through it from line
   `start` (counted from one), keeps a halo whose mass is strictly inside the
   cut, and stops once it has `maxn` of them (no limit when maxn < 0).
   A grid of n cells per side covers the periodic box; a halo's cell depends on
   its own position alone.                                                    *)
EXTENDS Grid, Flt, SequencesExt
\* ---- selection: c = [min, max] with max = <<>> or <<x>> ----
Passes(l, c) == ~ l.skip /\ FLt(c.min, l.m) /\ \A x \in ToSet(c.max) : FLt(l.m, x)
Full(k, maxn) == maxn >= 0 /\ Len(k) >= maxn
\* one step of a reader over line number i
Step(kept, lines, i, c, maxn, start) ==
  IF i < start \/ Full(kept, maxn) \/ ~ Passes(lines[i], c) THEN kept ELSE Append(kept, i)
Selected(lines, c, maxn, start) == FoldLeft(LAMBDA k, i : Step(k, lines, i, c, maxn, start), <<>>, [i \in DOMAIN lines |-> i])
\* the same said without a reader: the first maxn passing lines in file order
Passing(lines, c, start) == SelectSeq([i \in DOMAIN lines |-> i], LAMBDA i : i >= start /\ Passes(lines[i], c))
Chosen(lines, c, maxn, start) == LET p == Passing(lines, c, start) IN IF maxn >= 0 /\ maxn < Len(p) THEN SubSeq(p, 1, maxn) ELSE p
\* ---- periodic positions ----
\* r is the image of x in the closed box [0, L]
InBox(r, L) == FLe(0, r) /\ FLe(r, L)
IsImage(r, x, L, rtol) == LET tol == FMul(rtol, FMax(L, FAbs(x))) IN \E k \in {-1, 0, 1} : FNear(r, FAdd(x, FMul(k, L)), 0, tol)
\* ---- grids ----
\* cell (from 0) of grid coordinate x on an axis of n cells; the upper face of the box is also its lower face
AxisCell(x, n, up) == IF FEq(x, n) THEN (IF up THEN n - 1 ELSE 0) ELSE ((FFloor(x) % n) + n) % n
CellOf(p, n, up) == LET c == [a \in DOMAIN p |-> AxisCell(p[a], n, up)]
                        P[a \in 0..Len(p)] == IF a = 0 THEN 1 ELSE P[a - 1] + c[a] * Stride([b \in DOMAIN p |-> n], a) IN P[Len(p)]
OnGrid(pos, n, up) == [i \in DOMAIN pos |-> CellOf(pos[i], n, up)]
\* haloes of a cell, in catalogue order
In(cells, j) == SelectSeq([i \in DOMAIN cells |-> i], LAMBDA i : cells[i] = j)
Vals(w, s) == [k \in DOMAIN s |-> w[s[k]]]
=============================================================================
