------------------------------ MODULE F01Trace ------------------------------
(* F01: the abstract file system maps every path to the content last written;
   every reader must see it.  A save that fails changes nothing; one that is
   killed may have happened or not.                                           *)
EXTENDS Files, TraceDriver
F01Begin(s) == [fs |-> <<>>, q |-> s.init]
Put(f, p, c) == [x \in DOMAIN f \cup {p} |-> IF x = p THEN c ELSE f[x]]
DensFactor(q, mx) == FMul(FMul(q.rhoc, q.OmB), FPow(FDiv(mx, q.nbox), 3))
\* relative error of the factor held in single precision (it can be subnormal for a tiny mesh)
FactorErr(q, mx) == FDiv(FLit("1.5e-45"), DensFactor(q, mx))
\* physical densities are stored in simulation units
File(t, e) == [k |-> "file", may |-> FALSE, f |-> FileOf(e.cls, e.o, e.sh, IF e.o.cgs THEN [i \in DOMAIN e.v |-> FDiv(e.v[i], DensFactor(t.q, e.sh[1]))] ELSE e.v, e.exact),
               rel |-> IF e.o.cgs THEN FAdd(FLit("2e-7"), FactorErr(t.q, e.sh[1])) ELSE FLit("1e-7")]
Known(t, p) == p \in DOMAIN t.fs
\* ---- dictionaries: a sequence of [k, t, sh, v] entries (text: v is the string) ----
Near(a, b, exact, rel) == FEq(a, b) \/ (FIsNaN(a) /\ FIsNaN(b)) \/ (~ exact /\ FNear(a, b, rel, FLit("1e-44")))
SameEntry(x, y) == x.k = y.k /\ x.t = y.t /\ x.sh = y.sh /\ (IF x.t = "s" THEN x.v = y.v ELSE Len(x.v) = Len(y.v) /\ \A i \in DOMAIN x.v : FNear(x.v[i], y.v[i], FLit("1e-14"), 0) \/ FEq(x.v[i], y.v[i]) \/ (FIsNaN(x.v[i]) /\ FIsNaN(y.v[i])))
SameDict(d, w) == Len(d) = Len(w) /\ \A i \in DOMAIN d : \E j \in DOMAIN w : SameEntry(d[i], w[j])
Dict(d) == [k |-> "dict", may |-> FALSE, d |-> d]
F01After(t, e) ==
  CASE e.op = "write" -> IF e.exc = "" THEN [t EXCEPT !.fs = Put(@, e.path, File(t, e))] ELSE t
    [] e.op = "dwrite" -> IF e.exc = "" THEN [t EXCEPT !.fs = Put(@, e.path, Dict(e.d))]
                          ELSE IF e.exc = "killed" /\ Known(t, e.path) THEN [t EXCEPT !.fs = Put(@, e.path, [t.fs[e.path] EXCEPT !.may = TRUE] @@ [alt |-> e.d])] ELSE t
    [] e.op = "dread" -> IF Known(t, e.path) /\ e.exc = "" /\ t.fs[e.path].may THEN [t EXCEPT !.fs = Put(@, e.path, Dict(e.d))] ELSE t
    [] e.op = "constants" -> [t EXCEPT !.q = e.q]
    [] OTHER -> t
\* ---- what is on disk after a write: header integers and the values in file order ----
WriteV(t, e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE LET f == File(t, e).f IN
    Broken([header |-> CASE f.hdr = "mesh" -> e.ints = f.mesh [] f.hdr = "records" -> Len(e.ints) >= Len(f.mesh) + 1 /\ SubSeq(e.ints, 2, Len(f.mesh) + 1) = f.mesh [] OTHER -> e.ints = <<>>,
            values_in_file_order |-> Len(e.disk) = Len(f.d) /\ \A p \in DOMAIN e.disk : Near(e.disk[p], f.d[p], e.exact, File(t, e).rel),
            argument_unchanged |-> e.same])
Neutral(e) == e.cls = "xfrac" /\ e.o.neutral
Value(e, f, i) == ReadVal(e.cls, e.o, f, i)
OkVal(e, f, rel, v, i) == Near(v, Value(e, f, i), f.exact /\ ~ Neutral(e), rel) \/ (Neutral(e) /\ FNear(v, Value(e, f, i), 0, IF f.exact THEN FLit("1e-15") ELSE FLit("1e-7")))
Redshift(e) == IF e.ztext = "" THEN FEq(e.z, -1) ELSE FEq(e.z, FLit(e.ztext))
ReadV(t, e) ==
  IF ~ Known(t, e.path) THEN {}
  ELSE IF e.exc # "" THEN {"readable"}
  ELSE LET f == t.fs[e.path].f  sh == ReadShape(e.cls, f) IN
    IF e.r.shape # sh \/ Len(e.r.v) # Size(sh) THEN {"shape_as_written"}
    ELSE Broken([values_as_written |-> \A i \in 1..Size(sh) : OkVal(e, f, t.fs[e.path].rel, e.r.v[i], i),
                 redshift |-> (~ e.hasz) \/ Redshift(e)])
\* ---- physical views ----
PhysV(t, e) ==
  IF ~ Known(t, e.path) THEN {}
  ELSE IF e.exc # "" THEN {"readable"}
  ELSE LET f == t.fs[e.path].f  sh == ReadShape(e.cls, f)
           raw(i) == f.d[Pos(sh, "F", i)]
           w(i) == CASE e.view = "cgs" -> FMul(raw(i), DensFactor(t.q, f.mesh[1]))
                     [] e.view = "kmsrho8" -> FMul(raw(i), e.vel)
                     [] e.view = "kms" -> FDiv(FMul(raw(i), e.vel), FDiv(e.rho[1 + ((i - 1) % (Size(sh) \div 3))], 8))
       IN IF e.r.shape # sh \/ Len(e.r.v) # Size(sh) THEN {"shape_as_written"}
          ELSE Broken([documented_factor |-> \A i \in 1..Size(sh) : FNear(e.r.v[i], w(i), FAdd(FLit("3e-7"), IF e.view = "cgs" THEN FactorErr(t.q, f.mesh[1]) ELSE 0), 0)])
MeshV(t, e) == IF ~ Known(t, e.path) THEN {} ELSE IF e.exc # "" THEN {"readable"} ELSE Broken([mesh_as_written |-> e.mesh = t.fs[e.path].f.mesh])
TypeV(e) == Broken([filetype |-> e.got = e.want])
DWriteV(t, e) == IF e.exc = "" THEN {} ELSE IF e.fault THEN {} ELSE {"no_exception"}
DReadV(t, e) ==
  IF ~ Known(t, e.path) THEN {}
  ELSE IF e.exc # "" THEN {"readable_after_any_save"}
  ELSE LET c == t.fs[e.path] IN
    IF c.may THEN Broken([previous_or_new_version |-> SameDict(c.d, e.d) \/ SameDict(c.alt, e.d)])
    ELSE Broken([every_key_and_value |-> SameDict(c.d, e.d)])
\* ---- source lists: x y z (1-based in the file, 0-based in the list) and masses ----
SrcV(t, e) ==
  IF e.exc # "" THEN {"no_exception"} ELSE
  LET n == Len(e.pos) f == FMul(t.q.Mgrid, t.q.gsun) cols == IF e.mass \in {"hm", "lm"} THEN 4 ELSE 5
      M(s) == CASE e.mass = "hm" -> <<e.m[s][1]>> [] e.mass = "lm" -> <<e.m[s][2]>> [] OTHER -> e.m[s]
      unit(x) == IF e.grid THEN FMul(x, f) ELSE x IN
  Broken([every_source |-> e.r.shape = <<n, cols>> /\ \A s \in 1..n :
            /\ \A a \in 1..3 : FEq(e.r.v[(s - 1) * cols + a], e.pos[s][a])
            /\ \A j \in DOMAIN M(s) : FNear(e.r.v[(s - 1) * cols + 3 + j], unit(M(s)[j]), FLit("1e-8"), 0),
          gridded_sum |-> LET N == e.n  at == [i \in 1..N * N * N |-> FSum([s \in 1..n |-> IF i = 1 + e.pos[s][3] + N * (e.pos[s][2] + N * e.pos[s][1]) THEN unit(M(s)[1]) ELSE 0])] IN
            e.g.shape = <<N, N, N>> /\ \A i \in 1..N * N * N : FNear(e.g.v[i], at[i], FLit("1e-8"), 0),
          redshift |-> Redshift(e)])
F01Verdict(t, e) ==
  CASE e.op = "constants" -> {}
    [] e.op = "write" -> WriteV(t, e)
    [] e.op = "read" -> ReadV(t, e)
    [] e.op = "phys" -> PhysV(t, e)
    [] e.op = "mesh" -> MeshV(t, e)
    [] e.op = "type" -> TypeV(e)
    [] e.op = "dwrite" -> DWriteV(t, e)
    [] e.op = "dread" -> DReadV(t, e)
    [] e.op = "same" -> Broken([argument_unchanged |-> e.same])
    [] e.op = "sources" -> SrcV(t, e)
    [] OTHER -> {"unknown_event"}
=============================================================================
