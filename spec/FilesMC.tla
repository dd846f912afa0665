------------------------------ MODULE FilesMC ------------------------------
(* (1) Every layout of small meshes gives back what was written, through every
   matching reader; (2) saves that can fail or die at any step.               *)
EXTENDS Files
CONSTANTS Paths, Versions, MaxLen
VARIABLES disk, save, done, tmp
\* ---- layouts (state-independent) ----
Shapes == {<<a>> : a \in 1..3} \cup {<<a, b>> : a, b \in 1..3} \cup {<<a, b, c>> : a, b, c \in 1..3} \cup {<<3, a, b, c>> : a, b, c \in 1..2}
ASSUME \A sh \in Shapes : \A o \in {"C", "F"} : /\ (\A i \in 1..Size(sh) : CellAt(sh, o, Pos(sh, o, i)) = i /\ Pos(sh, o, i) \in 1..Size(sh))
                                                 /\ Cardinality({Pos(sh, o, j) : j \in 1..Size(sh)}) = Size(sh)
Opts == [binary : BOOLEAN, old : BOOLEAN, neutral : {FALSE}, records : BOOLEAN, order : {"C", "F"}, bits : {32, 64}]
ASSUME \A sh \in {<<2, 3, 1>>, <<1, 2, 3>>, <<3, 2, 2>>} : \A cls \in {"xfrac", "density", "temper", "cbin", "velocity"} : \A o \in Opts :
  LET s == FullShape(cls, sh)  v == [i \in 1..Size(s) |-> 10 + i]  f == FileOf(cls, o, s, v, TRUE) IN
  /\ ReadShape(cls, f) = s /\ \A i \in 1..Size(s) : ReadVal(cls, o, f, i) = v[i]
  \* the first axis varies fastest in column-major files
  /\ Order(cls, o) = "F" /\ cls # "velocity" /\ s[1] > 1 => f.d[2] = v[1 + Stride(s, 1)]
\* ---- saving ----
None == 0
Init == disk = [p \in Paths |-> None] /\ done = [p \in Paths |-> None] /\ save = [step |-> "idle"] /\ tmp = <<>>
\* versions are written in increasing order, each as MaxLen chunks
Begin(p, v) == save.step = "idle" /\ v > done[p] /\ save' = [step |-> "building", path |-> p, v |-> v] /\ tmp' = <<>> /\ UNCHANGED <<disk, done>>
Chunk == save.step = "building" /\ Len(tmp) < MaxLen /\ tmp' = Append(tmp, save.v) /\ UNCHANGED <<disk, save, done>>
Replace == save.step = "building" /\ Len(tmp) = MaxLen /\ disk' = [disk EXCEPT ![save.path] = save.v] /\ save' = [save EXCEPT !.step = "replaced"] /\ UNCHANGED <<done, tmp>>
Return == save.step = "replaced" /\ done' = [done EXCEPT ![save.path] = save.v] /\ save' = [step |-> "idle"] /\ tmp' = <<>> /\ UNCHANGED disk
\* an error, a full disk or a kill
Fail == save.step \in {"building", "replaced"} /\ save' = [step |-> "idle"] /\ UNCHANGED <<disk, tmp>>
        /\ done' = IF save.step = "replaced" THEN [done EXCEPT ![save.path] = save.v] ELSE done
Next == (\E p \in Paths, v \in Versions : Begin(p, v)) \/ Chunk \/ Replace \/ Return \/ Fail
Spec == Init /\ [][Next]_<<disk, save, done, tmp>>
\* what a reader finds is always the last version whose save got as far as replacing it, complete
Durable == \A p \in Paths : disk[p] = done[p] \/ (save.step = "replaced" /\ save.path = p /\ disk[p] = save.v)
NeverBack == [][\A p \in Paths : disk'[p] >= disk[p]]_<<disk, save, done, tmp>>
OthersKept == [][\A p \in Paths : disk'[p] # disk[p] => save.step # "idle" /\ save.path = p]_<<disk, save, done, tmp>>
=============================================================================
