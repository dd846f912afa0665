-------------------------------- MODULE Grid --------------------------------
(* Regular grids with C-order flat indices 1..N; connected regions.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(n) == IF n < 0 THEN -n ELSE n
\* stride of axis a and number of cells of a shape
RECURSIVE ProdFrom(_, _)
ProdFrom(sh, a) == IF a > Len(sh) THEN 1 ELSE sh[a] * ProdFrom(sh, a + 1)
Size(sh) == ProdFrom(sh, 1)
Stride(sh, a) == ProdFrom(sh, a + 1)
\* coordinate (0-based) of flat index i (1-based) along axis a
Co(sh, i, a) == ((i - 1) \div Stride(sh, a)) % sh[a]
\* cells one face, edge or corner step away (at most `conn` coordinates differ), without wrapping
Offsets(nd, conn) == {o \in [1..nd -> -1..1] : LET n == Cardinality({a \in 1..nd : o[a] # 0}) IN n >= 1 /\ n <= conn}
Delta(sh, o) == LET D[a \in 0..Len(sh)] == IF a = 0 THEN 0 ELSE D[a - 1] + o[a] * Stride(sh, a) IN D[Len(sh)]
\* offsets as records with their flat displacement, evaluated once per grid
OffTab(sh, conn) == {[o |-> o, d |-> Delta(sh, o)] : o \in Offsets(Len(sh), conn)}
Inside(sh, i, o) == \A a \in 1..Len(sh) : LET c == Co(sh, i, a) + o[a] IN c >= 0 /\ c < sh[a]
Neigh(sh, tab, i) == {i + t.d : t \in {t \in tab : Inside(sh, i, t.o)}}
\* all cells of `marked` (a sequence of booleans) reachable from frontier, given those seen
RECURSIVE Spread(_, _, _, _, _)
Spread(sh, tab, marked, seen, front) ==
  IF front = {} THEN seen
  ELSE LET new == {j \in UNION {Neigh(sh, tab, i) : i \in front} : marked[j]} \ seen
       IN Spread(sh, tab, marked, seen \cup new, new)
Region(sh, tab, marked, i) == Spread(sh, tab, marked, {i}, {i})
\* number of regions
RECURSIVE CountRegions(_, _, _, _)
CountRegions(sh, tab, marked, todo) ==
  IF todo = {} THEN 0
  ELSE LET i == CHOOSE i \in todo : TRUE IN 1 + CountRegions(sh, tab, marked, todo \ Region(sh, tab, marked, i))
NRegions(sh, conn, marked) == CountRegions(sh, OffTab(sh, conn), marked, {i \in 1..Size(sh) : marked[i]})
\* the labelling property: 0 off the marked cells, equal labels iff connected, labels 1..n
LabelZeroIff(marked, lab) == \A i \in DOMAIN lab : (lab[i] = 0) <=> ~ marked[i]
LabelJoins(sh, tab, marked, lab) == \A i \in DOMAIN lab : marked[i] => \A j \in Neigh(sh, tab, i) : marked[j] => lab[i] = lab[j]
LabelNumbered(lab) == LET L == {lab[i] : i \in DOMAIN lab} \ {0} IN L = 1..Cardinality(L)
\* with LabelJoins, classes are unions of regions; equal counts make them regions
LabelSplits(sh, tab, marked, lab) ==
  Cardinality({lab[i] : i \in DOMAIN lab} \ {0}) = CountRegions(sh, tab, marked, {i \in DOMAIN lab : marked[i]})
=============================================================================
