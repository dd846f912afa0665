----------------------------- MODULE ComplexMC -----------------------------
(* The staged construction of the cube map (vertices, edges, faces, cubes; each
   stage split over workers writing one shared array, with a barrier between
   stages) under every interleaving of the workers' cell updates: the result is
   the declarative complex, whatever the schedule.                             *)
EXTENDS Complex
CONSTANTS Sh, NW, Barrier
VARIABLES marked, map, stage, at
vars == <<marked, map, stage, at>>
ShapeA == <<2, 2, 1>>
ShapeB == <<3, 1, 1>>
D == Double(Sh)
Slab == D[2] * D[3]
Rows == D[1]
Chunk == (Rows + NW - 1) \div NW
Lo(w) == IF (w - 1) * Chunk < Rows THEN (w - 1) * Chunk ELSE Rows
Hi(w) == IF w * Chunk < Rows THEN w * Chunk ELSE Rows
Init == /\ marked \in [1..Size(Sh) -> BOOLEAN]
        /\ map = [n \in 1..Size(D) |-> 0] /\ stage = [w \in 1..NW |-> 1] /\ at = [w \in 1..NW |-> Lo(w) * Slab]
X(n) == n \div Slab
Y(n) == (n \div D[3]) % D[2]
Z(n) == n % D[3]
At(x, y, z) == map[1 + (x % D[1]) * Slab + (y % D[2]) * D[3] + (z % D[3])]
Both(n, a, m) == CASE a = 1 -> At(X(n) + D[1] - 1, Y(n), Z(n)) = m /\ At(X(n) + 1, Y(n), Z(n)) = m
                   [] a = 2 -> At(X(n), Y(n) + D[2] - 1, Z(n)) = m /\ At(X(n), Y(n) + 1, Z(n)) = m
                   [] a = 3 -> At(X(n), Y(n), Z(n) + D[3] - 1) = m /\ At(X(n), Y(n), Z(n) + 1) = m
Update(n, s) ==
  IF s = 1 THEN (IF X(n) % 2 = 0 /\ Y(n) % 2 = 0 /\ Z(n) % 2 = 0 /\ marked[Flat(Sh, <<X(n) \div 2, Y(n) \div 2, Z(n) \div 2>>)] THEN 1 ELSE map[n + 1])
  ELSE IF map[n + 1] # 0 THEN map[n + 1]
  ELSE LET g == {a \in 1..3 : Both(n, a, s - 1)} IN IF Cardinality(g) >= s - 1 THEN s ELSE 0
Step(w) ==
  /\ stage[w] <= 4
  /\ Barrier => \A v \in 1..NW : stage[v] >= stage[w]
  /\ IF at[w] >= Hi(w) * Slab
     THEN /\ stage' = [stage EXCEPT ![w] = @ + 1] /\ at' = [at EXCEPT ![w] = Lo(w) * Slab] /\ UNCHANGED <<marked, map>>
     ELSE /\ map' = [map EXCEPT ![at[w] + 1] = Update(at[w], stage[w])]
          /\ at' = [at EXCEPT ![w] = @ + 1] /\ UNCHANGED <<marked, stage>>
Next == \E w \in 1..NW : Step(w)
Spec == Init /\ [][Next]_vars
Done == \A w \in 1..NW : stage[w] = 5
ScheduleFree == Done => map = CubeMapOf(Sh, marked)
\* a full torus has Euler characteristic 0, so does the empty set
Torus == Done /\ (\A i, j \in DOMAIN marked : marked[i] = marked[j]) => EulerOf(map) = 0
=============================================================================
