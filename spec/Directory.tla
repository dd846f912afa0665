----------------------------- MODULE Directory -----------------------------
(* A directory of snapshots: files in any listing order, each naming a
   redshift.  Which redshifts a listing shows, and which stored snapshots a
   requested redshift lies between.                                           *)
EXTENDS Flt, Naturals, Sequences, FiniteSets, SequencesExt
\* ---- the redshift hidden in a name: its longest run of digits and dots, the first of several ----
Num(ch) == ch \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "."}
LastOf(s, ch) == IF \E i \in DOMAIN s : s[i] = ch THEN CHOOSE i \in DOMAIN s : s[i] = ch /\ \A j \in DOMAIN s : s[j] = ch => j <= i ELSE 0
Base(name) == SubSeq(name, LastOf(name, "/") + 1, Len(name))
\* without the extension: the last dot, unless everything before it is dots
Stem(b) == LET d == LastOf(b, ".") IN IF d > 1 /\ (\E i \in 1..d - 1 : b[i] # ".") THEN SubSeq(b, 1, d - 1) ELSE b
Runs(s) == {r \in (1..Len(s)) \X (1..Len(s)) : r[1] <= r[2] /\ (\A i \in r[1]..r[2] : Num(s[i])) /\ (r[1] = 1 \/ ~ Num(s[r[1] - 1])) /\ (r[2] = Len(s) \/ ~ Num(s[r[2] + 1]))}
Longest(s) == CHOOSE r \in Runs(s) : \A q \in Runs(s) : q[2] - q[1] < r[2] - r[1] \/ (q[2] - q[1] = r[2] - r[1] /\ r[1] <= q[1])
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN "" ELSE Head(s) \o Joined(Tail(s))
NameZ(name) == LET s == Stem(Base(name)) IN IF Runs(s) = {} THEN -1 ELSE LET r == Longest(s) IN FLit(Joined(SubSeq(s, r[1], r[2])))
\* ---- listings: zs is the sequence of the redshifts of the matching files, in any order; a limit is <<z>> or <<>> ----
NoLim == <<>>
Low(zs, lo) == {i \in DOMAIN zs : FLe(zs[i], lo[1])}
High(zs, hi) == {i \in DOMAIN zs : FLe(hi[1], zs[i])}
Refused(zs, lo, hi, bracket) == bracket /\ ((Len(lo) = 1 /\ Low(zs, lo) = {}) \/ (Len(hi) = 1 /\ High(zs, hi) = {}))
FromZ(zs, lo, bracket) == IF Len(lo) = 0 \/ ~ bracket THEN lo ELSE <<zs[CHOOSE i \in Low(zs, lo) : \A j \in Low(zs, lo) : FLe(zs[j], zs[i])]>>
UptoZ(zs, hi, bracket) == IF Len(hi) = 0 \/ ~ bracket THEN hi ELSE <<zs[CHOOSE i \in High(zs, hi) : \A j \in High(zs, hi) : FLe(zs[i], zs[j])]>>
Within(z, f, u) == (Len(f) = 0 \/ FLe(f[1], z)) /\ (Len(u) = 0 \/ FLe(z, u[1]))
Listed(zs, lo, hi, bracket) ==
  LET f == FromZ(zs, lo, bracket)  u == UptoZ(zs, hi, bracket) IN {i \in DOMAIN zs : Within(zs[i], f, u)}
\* r lists exactly those, in increasing order, once per file
IsListing(r, zs, lo, hi, bracket) ==
  LET S == Listed(zs, lo, hi, bracket) IN
  /\ Len(r) = Cardinality(S) /\ (\A i \in 1..Len(r) - 1 : FLe(r[i], r[i + 1]))
  /\ \A k \in DOMAIN zs : Cardinality({i \in DOMAIN r : FEq(r[i], zs[k])}) = Cardinality({i \in S : FEq(zs[i], zs[k])})
\* ---- neighbours: indices into zs ----
Exact(zs, z) == {i \in DOMAIN zs : FEq(zs[i], z)}
Below(zs, z) == {i \in DOMAIN zs : FLt(zs[i], z)}
Above(zs, z) == {i \in DOMAIN zs : FLt(z, zs[i])}
Lower(zs, z) == CHOOSE i \in Below(zs, z) : \A j \in Below(zs, z) : FLe(zs[j], zs[i])
Upper(zs, z) == CHOOSE i \in Above(zs, z) : \A j \in Above(zs, z) : FLe(zs[i], zs[j])
Answerable(zs, z) == Exact(zs, z) # {} \/ (Below(zs, z) # {} /\ Above(zs, z) # {})
Lin(zl, zh, z, vl, vh) == FAdd(vh, FMul(FSub(vl, vh), FDiv(FSub(z, zh), FSub(zl, zh))))
=============================================================================
