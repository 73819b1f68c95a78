------------------------------- MODULE DistDeep -------------------------------
(***************************************************************************)
(* The distributed deep multilevel scheme: the graph shrinks; as soon as   *)
(* it is too small for all PEs, the PEs split into groups, each with its   *)
(* own copy.  On the way back, blocks are divided further, and the groups  *)
(* join: everybody takes over the best partition of all groups.            *)
(* How much a graph shrinks per level is left open.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Sizes, PEs, Blocks, BigK, Limit, Variant
ASSUME Variant \in {"ok", "Uneven"}
VARIABLES P, fk,    \* number of PEs, of blocks asked for
          levels,   \* [n, pes, rep]: size of the graph, PEs per group, copies of it made at this point
          k, phase
vars == <<P, fk, levels, k, phase>>
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Ceil2(_)
Ceil2(x) == IF x <= 1 THEN 1 ELSE 2 * Ceil2((x + 1) \div 2)
Top == levels[Len(levels)]
FirstK == Min2(fk, BigK)

Init == /\ P \in PEs /\ fk \in Blocks
        /\ \E n \in Sizes : levels = <<[n |-> n, pes |-> P, rep |-> 1]>>
        /\ k = 1 /\ phase = "coarsen"

\* copies to be made of a graph with n vertices: a divisor of the number of PEs
RECURSIVE Divisor(_, _)
Divisor(p, r) == IF p % r = 0 THEN r ELSE Divisor(p, r - 1)
Copies(n, p) == LET r == Max2(1, p \div Ceil2(n \div Limit)) IN IF Variant = "Uneven" THEN r ELSE Divisor(p, r)
\* PE q of p PEs goes to group q % r, where it becomes the PE q \div r
GroupSize(p, r, q) == Cardinality({ x \in 0 .. p - 1 : x % r = q % r })

Big == Top.n > Limit * FirstK
Split == /\ phase = "coarsen" /\ Big /\ Copies(Top.n, Top.pes) > 1
         /\ LET r == Copies(Top.n, Top.pes) IN
              levels' = Append(levels, [n |-> Top.n, pes |-> GroupSize(Top.pes, r, 0), rep |-> r])
         /\ UNCHANGED <<P, fk, k, phase>>
Shrink == /\ phase = "coarsen" /\ Big /\ Copies(Top.n, Top.pes) = 1
          /\ \E n \in 1 .. Top.n - 1 : levels' = Append(levels, [n |-> n, pes |-> Top.pes, rep |-> 1])
          /\ UNCHANGED <<P, fk, k, phase>>
\* small enough, or nothing left to contract
Partition == /\ phase = "coarsen"
             /\ k' = FirstK /\ phase' = "up" /\ UNCHANGED <<P, fk, levels>>

Joined(rep) == levels' = SubSeq(levels, 1, Len(levels) - 1)
Join == /\ phase = "up" /\ Len(levels) > 1 /\ Top.rep > 1
        /\ Joined(Top.rep) /\ phase' = "up" /\ UNCHANGED <<P, fk, k>>
Uncoarsen == /\ phase = "up" /\ Len(levels) > 1 /\ Top.rep = 1
             /\ levels' = SubSeq(levels, 1, Len(levels) - 1) /\ phase' = "extend"
             /\ UNCHANGED <<P, fk, k>>
Flat == /\ phase = "up" /\ Len(levels) = 1 /\ phase' = (IF k = fk THEN "done" ELSE "extend")
        /\ UNCHANGED <<P, fk, levels, k>>
Desired == IF Top.n = levels[1].n THEN fk ELSE Min2(fk, Ceil2(Top.n \div Limit))
Extend == /\ phase = "extend"
          /\ IF k < Desired THEN /\ k' = k * (Min2(Desired, k * BigK) \div k) /\ phase' = "extend"
                            ELSE k' = k /\ phase' = "up"
          /\ UNCHANGED <<P, fk, levels>>
Next == Split \/ Shrink \/ Partition \/ Join \/ Uncoarsen \/ Flat \/ Extend
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* blocks are divided into equally many parts
Divides == phase = "extend" /\ k < Desired => Min2(Desired, k * BigK) % k = 0
NeverTooMany == k <= fk
\* A group's best partition is handed back piece by piece: the PEs with rank g in their groups exchange
\* partitions; member j of them gets the j-th of the r ranges that PE g of each group is responsible for
\* - computing r from the group sizes - and has to be the PE that owned that range before the split.
JoinFits == \A i \in 2 .. Len(levels) : levels[i].rep > 1 =>
  LET p == levels[i - 1].pes  r == levels[i].rep IN
  \A q \in 0 .. p - 1 :
    LET g == q \div r   members == { x \in 0 .. p - 1 : x \div r = g }
        copies == p \div GroupSize(p, r, q)
        j == Cardinality({ x \in members : x < q }) IN
    /\ Cardinality(members) = copies
    /\ g * copies + j = q
AllPEsUsed == \A i \in 2 .. Len(levels) : levels[i].rep > 1 => levels[i].pes * levels[i].rep = levels[i - 1].pes
Complete == phase = "done" => k = fk /\ Len(levels) = 1 /\ Top.pes = P
Ends == <>(phase = "done")
=============================================================================
