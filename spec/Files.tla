------------------------------- MODULE Files -------------------------------
(* Binary data files as the simulation codes lay them out: header integers
   (none, the mesh, or the mesh between record markers) and then the values in
   row-major ("C") or column-major ("F") order with 32 or 64 bits.  A file is
   [mesh, hdr, bits, d, exact]; d holds the values in file order.             *)
EXTENDS Grid, Flt, SequencesExt
\* file position (1-based) of the cell with C-order flat index i
RECURSIVE FPosFrom(_, _, _)
FPosFrom(sh, i, a) == IF a > Len(sh) THEN 0 ELSE Co(sh, i, a) + sh[a] * FPosFrom(sh, i, a + 1)
Pos(sh, order, i) == IF order = "F" THEN 1 + FPosFrom(sh, i, 1) ELSE i
RECURSIVE FLowFrom(_, _)
FLowFrom(sh, a) == IF a > Len(sh) THEN 1 ELSE sh[a] * FLowFrom(sh, a + 1)
\* C-order flat index of the value at file position p (the inverse of Pos)
CellAt(sh, order, p) ==
  IF order # "F" THEN p
  ELSE LET Q[a \in 0..Len(sh)] == IF a = 0 THEN p - 1 ELSE Q[a - 1] \div sh[a]
           C[a \in 0..Len(sh)] == IF a = 0 THEN 1 ELSE C[a - 1] + (Q[a - 1] % sh[a]) * Stride(sh, a)
       IN C[Len(sh)]
\* class -> layout
Header(cls, o) == CASE cls = "xfrac" -> IF o.binary THEN "mesh" ELSE "records"
                    [] cls \in {"density", "clumping", "velocity"} -> "mesh" [] cls = "temper" -> "records"
                    [] cls = "cbin" -> IF o.records THEN "records" ELSE "mesh" [] cls \in {"raw", "npy", "fits"} -> "none"
Bits(cls, o) == CASE cls = "xfrac" -> IF o.old THEN 32 ELSE 64 [] cls \in {"density", "clumping", "velocity", "temper"} -> 32 [] OTHER -> o.bits
Order(cls, o) == IF cls \in {"xfrac", "density", "clumping", "velocity", "temper"} THEN "F" ELSE o.order
\* the mesh written in the header: velocity files hold three components per cell
Mesh(cls, sh) == IF cls = "velocity" THEN SubSeq(sh, 2, 4) ELSE sh
FullShape(cls, mesh) == IF cls = "velocity" THEN <<3>> \o mesh ELSE mesh
FileOf(cls, o, sh, v, exact) ==
  LET order == Order(cls, o) IN
  [mesh |-> Mesh(cls, sh), hdr |-> Header(cls, o), bits |-> Bits(cls, o), exact |-> exact,
   d |-> [p \in 1..Size(sh) |-> LET x == v[CellAt(sh, order, p)] IN IF cls = "xfrac" /\ o.neutral THEN FSub(1, x) ELSE x]]
\* what a reader of class cls with options o sees in file f: shape and values in C order
ReadShape(cls, f) == FullShape(cls, f.mesh)
ReadVal(cls, o, f, i) ==
  LET x == f.d[Pos(FullShape(cls, f.mesh), Order(cls, o), i)] IN IF cls = "xfrac" /\ o.neutral THEN FSub(1, x) ELSE x
\* ---- saving: a new version is built beside the old one and takes its place in one step ----
\* steps of a save: "idle" -> "building" -> "ready" -> replaced; it can fail or die at every step
=============================================================================
