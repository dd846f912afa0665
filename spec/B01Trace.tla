------------------------------ MODULE B01Trace ------------------------------
(* B01: recorded labellings against the declarative connected regions.         *)
EXTENDS Grid, Flt, TraceDriver
B01Begin(s) == [shape |-> s.init.shape]
B01After(t, e) == t
\* e: v data, xth, lab, sizes, conn, op ("fof": closed threshold; "search": strict threshold)
Judge(e) ==
  IF e.exc # "" THEN {"no_exception"}
  ELSE IF e.lab.shape # e.shape THEN {"label_shape"}
  ELSE LET marked == [i \in DOMAIN e.v |-> IF e.op = "fof" THEN FLe(e.xth, e.v[i]) ELSE FLt(e.xth, e.v[i])]
           lab == e.lab.v  sh == e.shape  tab == OffTab(e.shape, e.conn)
           cnt == [g \in 1..Len(e.sizes) |-> 0]
       IN IF ~ LabelZeroIff(marked, lab) THEN {"zero_label_iff_unmarked"}
          ELSE Broken([joins |-> LabelJoins(sh, tab, marked, lab),
                       numbered |-> LabelNumbered(lab),
                       splits |-> LabelSplits(sh, tab, marked, lab),
                       sizes |-> LET n == Cardinality({lab[i] : i \in DOMAIN lab} \ {0})
                                     C[i \in 0..Len(lab)] == IF i = 0 THEN [g \in 1..n |-> 0]
                                         ELSE IF lab[i] \in 1..n THEN [C[i - 1] EXCEPT ![lab[i]] = @ + 1] ELSE C[i - 1]
                                 IN Len(e.sizes) = n /\ (n = 0 \/ C[Len(lab)] = e.sizes)])
B01Verdict(t, e) == Judge(e)
=============================================================================
