--------------------------- MODULE SubgraphMemory ---------------------------
(***************************************************************************)
(* Memory discipline of recursive bipartitioning: the two halves of a      *)
(* graph overwrite the memory of the graph itself. A graph with n vertices *)
(* needs n + 1 cells (offsets); a region with n + f cells suffices for all *)
(* graphs that arise while it is divided into f parts, because every part  *)
(* brings one cell of padding.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, MaxF, Variant
VARIABLES live      \* graphs still to be divided, the last one is next: <<start, cells, vertices, parts>>
vars == <<live>>
Init == \E n \in 0 .. MaxN, f \in 2 .. MaxF : live = << [at |-> 0, n |-> n, f |-> f] >>
Cells(g) == g.n + g.f
Divide == /\ live # <<>>
          /\ LET g == live[Len(live)]  rest == SubSeq(live, 1, Len(live) - 1) IN
             \E n0 \in 0 .. g.n, f0 \in 1 .. g.f - 1 :
                LET pad == IF Variant = "OnePad" THEN 1 ELSE f0
                    a == [at |-> g.at, n |-> n0, f |-> f0]
                    c == [at |-> g.at + n0 + pad, n |-> g.n - n0, f |-> g.f - f0]
                IN live' = rest \o (IF c.f > 1 THEN <<c>> ELSE <<>>) \o (IF a.f > 1 THEN <<a>> ELSE <<>>)
Next == Divide
Spec == Init /\ [][Next]_vars
Region(g) == g.at .. g.at + g.n + g.f - 1
Used(g) == g.at .. g.at + g.n
\* a graph lies in its region, and no region touches that of another live graph
Disjoint == \A i, j \in 1 .. Len(live) : i # j => Region(live[i]) \cap Region(live[j]) = {}
Fits == \A i \in 1 .. Len(live) : Used(live[i]) \subseteq Region(live[i]) /\ live[i].at + live[i].n + live[i].f <= MaxN + MaxF
\* both halves stay in the region of their graph
Inside == [][\A i \in 1 .. Len(live') : i >= Len(live) => Region(live'[i]) \subseteq Region(live[Len(live)])]_vars
=============================================================================
