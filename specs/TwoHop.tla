------------------------------- MODULE TwoHop -------------------------------
(***************************************************************************)
(* Two-hop matching and clustering: unclustered vertices with a common     *)
(* favored cluster C meet in the cell sync[C] (label_propagation.h:        *)
(* handle_two_hop_nodes_impl). The cell holds C (empty) or the vertex that *)
(* is waiting for partners; it changes by compare-and-swap only.           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Nodes, MaxSize, Mode, Variant
ASSUME Mode \in {"match", "cluster"} /\ Variant \in {"ok", "NoReset", "PlainRead"}
VARIABLES cell, pc, seen, label, size
vars == <<cell, pc, seen, label, size>>
C == 0                                   \* the common favored cluster; Nodes are positive
Init == /\ cell = C /\ pc = [u \in Nodes |-> "read"] /\ seen = [u \in Nodes |-> C]
        /\ label = [u \in Nodes |-> u] /\ size = [u \in Nodes |-> 1]
Done(u) == pc' = [pc EXCEPT ![u] = "done"]
Read(u) == /\ pc[u] = "read" /\ seen' = [seen EXCEPT ![u] = cell]
           /\ pc' = [pc EXCEPT ![u] = IF cell = C THEN "enter" ELSE "join"] /\ UNCHANGED <<cell, label, size>>
Enter(u) == /\ pc[u] = "enter"
            /\ IF cell = C THEN cell' = u /\ Done(u) ELSE pc' = [pc EXCEPT ![u] = "read"] /\ UNCHANGED cell
            /\ UNCHANGED <<seen, label, size>>
\* matching: take the waiting vertex out of the cell, then move to it
Take(u) == /\ pc[u] = "join" /\ Mode = "match"
           /\ IF cell = seen[u] \/ Variant = "PlainRead"
                THEN cell' = (IF Variant = "NoReset" THEN cell ELSE C) /\ pc' = [pc EXCEPT ![u] = "move"]
                ELSE pc' = [pc EXCEPT ![u] = "read"] /\ UNCHANGED cell
           /\ UNCHANGED <<seen, label, size>>
Move(u) == /\ pc[u] = "move"
           /\ label' = [label EXCEPT ![u] = seen[u]]
           /\ size' = [size EXCEPT ![u] = @ - 1, ![seen[u]] = @ + 1] /\ Done(u) /\ UNCHANGED <<cell, seen>>
\* clustering: join if there is room, otherwise replace the waiting vertex
Join(u) == /\ pc[u] = "join" /\ Mode = "cluster"
           /\ IF size[seen[u]] + 1 <= MaxSize
                THEN /\ label' = [label EXCEPT ![u] = seen[u]]
                     /\ size' = [size EXCEPT ![u] = @ - 1, ![seen[u]] = @ + 1] /\ Done(u) /\ UNCHANGED <<cell, seen>>
                ELSE IF cell = seen[u] THEN cell' = C /\ pc' = [pc EXCEPT ![u] = "read"] /\ UNCHANGED <<seen, label, size>>
                ELSE pc' = [pc EXCEPT ![u] = "read"] /\ UNCHANGED <<cell, seen, label, size>>
Next == (\E u \in Nodes : Read(u) \/ Enter(u) \/ Take(u) \/ Move(u) \/ Join(u))
        \/ ((\A u \in Nodes : pc[u] = "done") /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A u \in Nodes : WF_vars(Read(u) \/ Enter(u) \/ Take(u) \/ Move(u) \/ Join(u))

Members(c) == { u \in Nodes : label[u] = c }
Limit == IF Mode = "match" THEN 2 ELSE MaxSize
SizeLimit == \A c \in Nodes : Cardinality(Members(c)) <= Limit
\* nobody moves to a vertex that moved away itself
Stars == \A u \in Nodes : label[label[u]] = label[u]
Tracked == \A c \in Nodes : size[c] = Cardinality(Members(c))
AllDone == \A u \in Nodes : pc[u] = "done"
\* at the end at most one vertex stays alone (matching)
Maximal == (AllDone /\ Mode = "match") => Cardinality({ u \in Nodes : Cardinality(Members(u)) = 1 }) <= 1
Terminates == <>AllDone
=============================================================================
