----------------------------- MODULE CatalogueMC -----------------------------
(* A reader working through every small catalogue with every cut, limit and
   start line, then the kept haloes being put on a grid one by one in any order. *)
EXTENDS Catalogue
CONSTANTS MaxLines, Masses, Coords, N
VARIABLES lines, cut, maxn, start, at, kept, phase, todo, grid
vars == <<lines, cut, maxn, start, at, kept, phase, todo, grid>>
\* a halo's place is a function of its line here so that the space stays small; lines vary in mass and place
Line == [skip : {FALSE}, m : Masses, p : {<<a - 1, b - 1>> : a, b \in Coords}] \cup {[skip |-> TRUE, m |-> 1, p |-> <<0, 0>>]}
Init == /\ lines \in UNION {[1..k -> Line] : k \in 0..MaxLines}
        /\ cut \in [min : {0, 1}, max : {<<>>, <<2>>}]
        /\ maxn \in {-1, 0, 1, 2} /\ start \in {0, 2}
        /\ at = 1 /\ kept = <<>> /\ phase = "read" /\ todo = {} /\ grid = [j \in 1..(N * N) |-> 0]
Read == /\ phase = "read" /\ at <= Len(lines) /\ ~ Full(kept, maxn)
        /\ kept' = Step(kept, lines, at, cut, maxn, start) /\ at' = at + 1
        /\ UNCHANGED <<lines, cut, maxn, start, phase, todo, grid>>
Close == /\ phase = "read" /\ (at > Len(lines) \/ Full(kept, maxn))
         /\ phase' = "grid" /\ todo' = ToSet(kept) /\ UNCHANGED <<lines, cut, maxn, start, at, kept, grid>>
Put == \E i \in todo : /\ phase = "grid" /\ todo' = todo \ {i}
                       /\ grid' = [grid EXCEPT ![CellOf(lines[i].p, N, FALSE)] = @ + lines[i].m]
                       /\ UNCHANGED <<lines, cut, maxn, start, at, kept, phase>>
Next == Read \/ Close \/ Put
Spec == Init /\ [][Next]_vars
ISum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* reading keeps exactly the first maxn passing lines, in order; nothing kept is dropped or reordered
ReadsChosen == phase = "grid" => kept = Chosen(lines, cut, maxn, start) /\ kept = Selected(lines, cut, maxn, start)
Growing == [][IsPrefix(kept, kept')]_vars
\* mass is never lost between the catalogue and the grid, and the final grid does not depend on the order
Conserved == phase = "grid" => ISum(grid) = ISum([k \in DOMAIN kept |-> IF kept[k] \in todo THEN 0 ELSE lines[kept[k]].m])
Final == phase = "grid" /\ todo = {} =>
  LET cells == [k \in DOMAIN kept |-> CellOf(lines[kept[k]].p, N, FALSE)] IN
  \A j \in 1..(N * N) : grid[j] = ISum([k \in DOMAIN In(cells, j) |-> lines[kept[In(cells, j)[k]]].m])
\* one periodic image, whichever box length away the halo is
Periodic == \A l \in ToSet(lines) : CellOf(l.p, N, FALSE) = CellOf([a \in 1..2 |-> l.p[a] + N], N, FALSE) /\ CellOf(l.p, N, FALSE) \in 1..(N * N)
=============================================================================
