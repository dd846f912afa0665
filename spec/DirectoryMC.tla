---------------------------- MODULE DirectoryMC ----------------------------
(* The operating system lists the files one by one in any order, files of other
   kinds among them; a reader that keeps only the best candidate so far, or that
   inserts into a sorted list, ends with what the definitions say.             *)
EXTENDS Directory, TLC
CONSTANTS Zs, Ask
VARIABLES files, left, seen, lo, hi, sorted
vars == <<files, left, seen, lo, hi, sorted>>
None == 99
Kinds == {"own", "other"}
Init == /\ files \in {S \in SUBSET ({"own", "other"} \X Zs) : Cardinality(S) <= 5}
        /\ left = files /\ seen = <<>> /\ lo = None /\ hi = None /\ sorted = <<>>
Insert(s, z) == LET n == Cardinality({i \in DOMAIN s : s[i] < z}) IN SubSeq(s, 1, n) \o <<z>> \o SubSeq(s, n + 1, Len(s))
List(f) == /\ left' = left \ {f} /\ UNCHANGED files
           /\ IF f[1] = "own" THEN /\ seen' = Append(seen, f[2]) /\ sorted' = Insert(sorted, f[2])
                                   /\ lo' = IF f[2] < Ask /\ (lo = None \/ f[2] > lo) THEN f[2] ELSE lo
                                   /\ hi' = IF f[2] > Ask /\ (hi = None \/ f[2] < hi) THEN f[2] ELSE hi
              ELSE UNCHANGED <<seen, lo, hi, sorted>>
Next == \E f \in left : List(f)
Spec == Init /\ [][Next]_vars
\* at every moment the scan agrees with the definitions on what has been listed so far
Neighbours == /\ (lo = None <=> Below(seen, Ask) = {}) /\ (lo # None => lo = seen[Lower(seen, Ask)])
              /\ (hi = None <=> Above(seen, Ask) = {}) /\ (hi # None => hi = seen[Upper(seen, Ask)])
Windows == LET L == {<<z>> : z \in Zs} \cup {NoLim} IN \A a \in L, b \in L : \A br \in BOOLEAN :
  Refused(seen, a, b, br) \/ LET f == FromZ(seen, a, br)  u == UptoZ(seen, b, br)
                             IN IsListing(SelectSeq(sorted, LAMBDA z : Within(z, f, u)), seen, a, b, br)
\* a bracketed window contains the plain one and reaches beyond both limits
Bracket == \A a \in Zs, b \in Zs : a <= b /\ ~ Refused(seen, <<a>>, <<b>>, TRUE) =>
  /\ Listed(seen, <<a>>, <<b>>, FALSE) \subseteq Listed(seen, <<a>>, <<b>>, TRUE) /\ (\E i \in Listed(seen, <<a>>, <<b>>, TRUE) : seen[i] <= a) /\ (\E i \in Listed(seen, <<a>>, <<b>>, TRUE) : seen[i] >= b)
  /\ Cardinality(Listed(seen, <<a>>, <<b>>, TRUE) \ Listed(seen, <<a>>, <<b>>, FALSE)) <= 2
\* the same directory in another order: same answers
OrderFree == left = {} => \A p \in {s \in [DOMAIN seen -> {seen[i] : i \in DOMAIN seen}] : \A i \in DOMAIN seen : Cardinality({j \in DOMAIN seen : s[j] = seen[i]}) = Cardinality({j \in DOMAIN seen : seen[j] = seen[i]})} :
   Answerable(p, Ask) = Answerable(seen, Ask) /\ (Below(seen, Ask) # {} => p[Lower(p, Ask)] = seen[Lower(seen, Ask)])
N(s) == NameZ(s)
ASSUME FEq(N(<<"x", "f", "3", "d", "_", "7", ".", "5", ".", "b", "i", "n">>), FLit("7.5"))
ASSUME FEq(N(<<"1", "2", ".", "0", "/", "8", ".", "1", "n", "_", "a", ".", "d">>), FLit("8.1"))
ASSUME N(<<"a", "b", ".", "c">>) = -1 /\ FEq(N(<<"1", "x", "2">>), 1)
=============================================================================
