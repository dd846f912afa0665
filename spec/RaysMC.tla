------------------------------- MODULE RaysMC -------------------------------
(* The step loop of the mean-free-path method on a lattice: live rays advance
   together, those that leave the region are tallied under the step they ended
   at, and the loop stops when none is alive or the bound on steps is reached.
   Every ray is counted exactly once and none survives a bound as long as the
   box diagonal.  Bound = side length shows why a shorter one loses rays.      *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS N, Bound
VARIABLES region, rays, rr, num, total
vars == <<region, rays, rr, num, total>>
Cells == (0..N-1) \X (0..N-1)
Dirs == {d \in (-1..1) \X (-1..1) : d # <<0, 0>>}
Init == /\ region \in {r \in SUBSET Cells : Cardinality(r) >= N}
        /\ \E c \in region : rays = {[x |-> c[1], y |-> c[2], d |-> d] : d \in Dirs}
        /\ rr = 0 /\ num = [k \in 0..Bound-1 |-> 0] /\ total = Cardinality(rays)
Move(r) == [r EXCEPT !.x = @ + r.d[1], !.y = @ + r.d[2]]
Step == /\ rr < Bound /\ rays # {}
        /\ LET moved == {Move(r) : r \in rays}  live == {r \in moved : <<r.x, r.y>> \in region}
           IN rays' = live /\ num' = [num EXCEPT ![rr] = Cardinality(moved) - Cardinality(live)]
        /\ rr' = rr + 1 /\ UNCHANGED <<region, total>>
Spec == Init /\ [][Step]_vars
RECURSIVE Sum(_, _)
Sum(f, k) == IF k < 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Counted == Sum(num, Bound - 1) + Cardinality(rays) = total
AllEnd == ~ ENABLED Step => rays = {} /\ Sum(num, Bound - 1) = total
=============================================================================
