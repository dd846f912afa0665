----------------------------- MODULE RegionsMC -----------------------------
(* Design model: balls painted one by one into a periodic box, freely or only
   where they do not overlap; and values that change group one sweep at a time
   until every one is nearest to the mean of its group.                        *)
EXTENDS Regions
CONSTANTS Sh, R2, Balls, NV
VARIABLES m, cs, free, x, g, phase
vars == <<m, cs, free, x, g, phase>>
Sh43 == <<4, 3>>
Sh222 == <<2, 3, 2>>
N == Size(Sh)
Init == \/ /\ phase = "paint" /\ m = [i \in 1..N |-> FALSE] /\ cs = {} /\ free \in BOOLEAN /\ x = <<>> /\ g = <<>>
        \/ /\ phase = "groups" /\ m = <<>> /\ cs = {} /\ free = FALSE /\ x \in [1..NV -> 0..4] /\ g \in [1..NV -> 1..2]
           /\ {g[i] : i \in 1..NV} = {1, 2}
Paint == /\ phase = "paint" /\ Cardinality(cs) < Balls
         /\ \E c \in 1..N : /\ c \notin cs /\ ~ m[c] /\ (free \/ Fits(Sh, m, c, R2))
                            /\ m' = AddBall(Sh, m, c, R2) /\ cs' = cs \cup {c}
         /\ UNCHANGED <<free, x, g, phase>>
Mn(k) == Mean(Cells(x, g, k))
Sweep == /\ phase = "groups"
         /\ LET new == [i \in 1..NV |-> IF FLe(FAbs(FSub(x[i], Mn(1))), FAbs(FSub(x[i], Mn(2)))) THEN 1 ELSE 2] IN
              /\ {new[i] : i \in 1..NV} = {1, 2} /\ new # g /\ g' = new
         /\ UNCHANGED <<m, cs, free, x, phase>>
Next == Paint \/ Sweep
Spec == Init /\ [][Next]_vars
\* the mask is the union of the balls, whatever their order
Union == phase = "paint" => \A i \in 1..N : m[i] <=> \E c \in cs : i \in BallCells(Sh, c, R2)
Disjoint == (phase = "paint" /\ ~ free) => Marked(m) = Cardinality(cs) * Cardinality(BallCells(Sh, 1, R2))
Centres == phase = "paint" => \A c \in cs : m[c]
SameBalls == phase = "paint" => \A c \in 1..N : Cardinality(BallCells(Sh, c, R2)) = Cardinality(BallCells(Sh, 1, R2))
\* at rest the groups lie on the two sides of the threshold halfway between them
AtRest == \A i \in 1..NV : g[i] = IF FLe(FAbs(FSub(x[i], Mn(1))), FAbs(FSub(x[i], Mn(2)))) THEN 1 ELSE 2
Lo == IF FLe(Mn(1), Mn(2)) THEN 1 ELSE 2
Separated == (phase = "groups" /\ AtRest /\ ~ FEq(Mn(1), Mn(2))) =>
  LET a == Cells(x, g, Lo)  b == Cells(x, g, 3 - Lo)  t == FDiv(FAdd(MaxOf(a), MinOf(b)), 2) IN
    \A i \in 1..NV : (g[i] = Lo) <=> FLe(x[i], t)
RestIsNearest == (phase = "groups" /\ AtRest) => Nearest(x, g, 2)
\* turning the values around turns the mask of the triangle threshold around (when no bins tie)
Mirrored == phase = "groups" => LET t == TriThresholds(x, 0, TRUE)  u == TriThresholds([i \in 1..NV |-> 4 - x[i]], 0, TRUE) IN
  \A i \in DOMAIN t : FLe(MinOf(x), t[i]) /\ FLe(t[i], MaxOf(x))
=============================================================================
