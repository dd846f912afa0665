----------------------------- MODULE ClustersMC -----------------------------
(* The breadth-first search of Friends_of_Friends.FoF_search as a transition
   system over every mask of a small grid and every order in which the queue
   may hand out its elements: at the end the labelling is exactly the connected
   regions, the sizes are their cell counts, and while it runs two cells with
   one label are always connected.                                            *)
EXTENDS Grid
LOCAL SeqOf(S) == CHOOSE f \in [1..Cardinality(S) -> S] : {f[i] : i \in DOMAIN f} = S
SetToSeq2(S) == IF S = {} THEN <<>> ELSE SeqOf(S)
CONSTANTS Shape, Fifo     \* Fifo = FALSE: the queue hands out its elements in any order
Shape23 == <<2, 3>>
Shape33 == <<3, 3>>
Shape222 == <<2, 2, 2>>
VARIABLES marked, lab, q, grp, sizes, pc, cur
vars == <<marked, lab, q, grp, sizes, pc, cur>>
Cells == 1..Size(Shape)
Tab == OffTab(Shape, 1)
Init == /\ marked \in [Cells -> BOOLEAN] /\ lab = [i \in Cells |-> 0] /\ q = <<>>
        /\ grp = 0 /\ sizes = <<>> /\ pc = "scan" /\ cur = 1
Scan == /\ pc = "scan"
        /\ IF cur > Size(Shape) THEN pc' = "done" /\ UNCHANGED <<marked, lab, q, grp, sizes, cur>>
           ELSE IF marked[cur] /\ lab[cur] = 0
           THEN /\ grp' = grp + 1 /\ lab' = [lab EXCEPT ![cur] = grp + 1] /\ q' = <<cur>>
                /\ sizes' = Append(sizes, 1) /\ pc' = "grow" /\ UNCHANGED <<marked, cur>>
           ELSE cur' = cur + 1 /\ UNCHANGED <<marked, lab, q, grp, sizes, pc>>
Grow == /\ pc = "grow"
        /\ IF q = <<>> THEN pc' = "scan" /\ UNCHANGED <<marked, lab, q, grp, sizes, cur>>
           ELSE \E n \in (IF Fifo THEN {1} ELSE 1..Len(q)) :
                LET rest == SubSeq(q, 1, n - 1) \o SubSeq(q, n + 1, Len(q))
                    new == {j \in Neigh(Shape, Tab, q[n]) : marked[j] /\ lab[j] = 0}
                IN /\ lab' = [i \in Cells |-> IF i \in new THEN grp ELSE lab[i]]
                   /\ q' = rest \o SetToSeq2(new)
                   /\ sizes' = [sizes EXCEPT ![grp] = @ + Cardinality(new)]
                   /\ UNCHANGED <<marked, grp, pc, cur>>
Next == Scan \/ Grow
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Labelled == \A i, j \in Cells : lab[i] # 0 /\ lab[i] = lab[j] => j \in Region(Shape, Tab, marked, i)
SizesSoFar == \A g \in DOMAIN sizes : sizes[g] = Cardinality({i \in Cells : lab[i] = g})
Final == pc = "done" =>
  /\ LabelZeroIff(marked, lab) /\ LabelJoins(Shape, Tab, marked, lab)
  /\ LabelNumbered(lab) /\ LabelSplits(Shape, Tab, marked, lab)
  /\ grp = NRegions(Shape, 1, marked)
Terminates == <>(pc = "done")
=============================================================================
