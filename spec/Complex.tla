------------------------------ MODULE Complex ------------------------------
(* The periodic cubical complex spanned by marked cells.  Sub-cells live on the
   doubled grid 2nx x 2ny x 2nz: the even coordinates are vertices, every odd
   coordinate adds a dimension.  A sub-cell belongs to the complex iff all its
   corner vertices are marked cells of the periodic box.                       *)
EXTENDS Grid
Double(sh) == [a \in 1..Len(sh) |-> 2 * sh[a]]
Flat(sh, c) == 1 + c[1] * sh[2] * sh[3] + c[2] * sh[3] + c[3]
Corners(sh, a, x) == IF x % 2 = 0 THEN {x \div 2} ELSE {(x - 1) \div 2, ((x + 1) \div 2) % sh[a]}
Dim(x, y, z) == (x % 2) + (y % 2) + (z % 2)
InComplex(sh, marked, x, y, z) ==
  \A i \in Corners(sh, 1, x), j \in Corners(sh, 2, y), k \in Corners(sh, 3, z) : marked[Flat(sh, <<i, j, k>>)]
\* dimension + 1 of the sub-cell if present, else 0: what the markers encode
Marker(sh, marked, x, y, z) == IF InComplex(sh, marked, x, y, z) THEN 1 + Dim(x, y, z) ELSE 0
CubeMapOf(sh, marked) ==
  LET D == Double(sh) IN
  [n \in 1..Size(D) |-> Marker(sh, marked, (n - 1) \div (D[2] * D[3]), ((n - 1) \div D[3]) % D[2], (n - 1) % D[3])]
Sign(m) == IF m = 0 THEN 0 ELSE IF m % 2 = 1 THEN 1 ELSE -1
EulerOf(cm) == LET S[n \in 0..Len(cm)] == IF n = 0 THEN 0 ELSE S[n - 1] + Sign(cm[n]) IN S[Len(cm)]
=============================================================================
