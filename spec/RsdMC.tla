------------------------------- MODULE RsdMC -------------------------------
(* Design model: the particles of one sightline (lengths in units of half a
   particle spacing, so that everything is exact) moved again and again.        *)
EXTENDS Rsd
CONSTANTS NC, NP, MaxD, Vals, Steps
VARIABLES w, w0, d, per, steps
vars == <<w, w0, d, per, steps>>
Unit == 2 * NP
Cell(p) == p \div Unit
At(k, dd) == 2 * (k - 1) + 1 + dd[1 + ((k - 1) \div NP)]
\* signals are counted in units of 1/NP^steps: multiply instead of dividing
Move(x, dd, p) == [c \in 1..NC |->
   FoldLeft(LAMBDA s, k : IF (IF p THEN Cell(At(k, dd)) % NC ELSE Cell(At(k, dd))) = c - 1 THEN s + x[1 + ((k - 1) \div NP)] ELSE s, 0, [k \in 1..(NC * NP) |-> k])]
Sum(x) == FoldLeft(LAMBDA a, b : a + b, 0, x)
Init == w \in [1..NC -> Vals] /\ w0 = w /\ d = [c \in 1..NC |-> 0] /\ per \in BOOLEAN /\ steps = 0
Next == steps < Steps /\ steps' = steps + 1 /\ d' \in [1..NC -> {0 - MaxD, 0 - Unit, 0 - 1, 0, 2, Unit, 2 * Unit + 1}] /\ w0' = w /\ w' = Move(w, d', per) /\ UNCHANGED per
Spec == Init /\ [][Next]_vars
Conserved == (steps > 0 /\ per) => Sum(w) = NP * Sum(w0)
OnlyLost == (steps > 0 /\ ~ per) => Sum(w) = NP * Sum(w0) - FoldLeft(LAMBDA s, k : IF Cell(At(k, d)) \in 0..(NC - 1) THEN s ELSE s + w0[1 + ((k - 1) \div NP)], 0, [k \in 1..(NC * NP) |-> k])
Still == (steps > 0 /\ \A c \in 1..NC : d[c] = 0) => w = [c \in 1..NC |-> NP * w0[c]]
Rolls == (steps > 0 /\ per /\ d[1] % Unit = 0 /\ \A c \in 1..NC : d[c] = d[1]) => \A c \in 1..NC : w[c] = NP * w0[1 + ((c - 1 - (d[1] \div Unit)) % NC)]
Turned == (steps > 0 /\ per) => Move([c \in 1..NC |-> w0[1 + (c % NC)]], [c \in 1..NC |-> d[1 + (c % NC)]], TRUE) = [c \in 1..NC |-> w[1 + (c % NC)]]
=============================================================================
