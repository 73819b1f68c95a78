------------------------------ MODULE GainCache -----------------------------
(***************************************************************************)
(* The row of one vertex in a gain cache while several threads move its    *)
(* neighbors: every mover takes the weight of the edge from the old block's*)
(* entry and adds it to the new one's. Rows stored as plain tables use     *)
(* atomic additions, hashed rows (entries are displaced by others' changes)*)
(* are copied and rewritten under the vertex' lock. A searcher's overlay   *)
(* adds moves on top of the shared row.                                    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Threads, K, MaxWeight, Moves, Hashed, Variant
ASSUME Variant \in {"ok", "NoLock", "PlainAdd", "KeepOld"}
Blocks == 0 .. K - 1
VARIABLES wt, block,  \* every thread moves one neighbor of its own: weight of the edge, current block
          row, ov,    \* shared row, one overlay
          lock, pc, to, copy, left
vars == <<wt, block, row, ov, lock, pc, to, copy, left>>
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN f[t] + SumOver(f, S \ {t})
Row(b) == SumOver(wt, { t \in Threads : block[t] = b })
Init == /\ wt \in [Threads -> 1 .. MaxWeight] /\ block \in [Threads -> Blocks]
        /\ row = [b \in Blocks |-> Row(b)] /\ ov = [b \in Blocks |-> 0] /\ lock = 0
        /\ pc = [t \in Threads |-> "idle"] /\ to = [t \in Threads |-> 0] /\ copy = [t \in Threads |-> <<>>] /\ left = Moves
Go(t, s) == pc' = [pc EXCEPT ![t] = s]
Start(t) == /\ pc[t] = "idle" /\ left > 0 /\ left' = left - 1
            /\ \E b \in Blocks \ {block[t]} : to' = [to EXCEPT ![t] = b]
            /\ Go(t, IF Hashed /\ Variant # "NoLock" THEN "lock" ELSE "dec") /\ UNCHANGED <<wt, block, row, ov, lock, copy>>
Lock(t) == pc[t] = "lock" /\ lock = 0 /\ lock' = t /\ Go(t, "dec") /\ UNCHANGED <<wt, block, row, ov, to, copy, left>>
Plain == Hashed \/ Variant = "PlainAdd"  \* read, then write
Dec(t) == /\ pc[t] = "dec" /\ UNCHANGED <<wt, block, ov, lock, to, left>>
          /\ LET n == IF Variant = "KeepOld" THEN row ELSE [row EXCEPT ![block[t]] = @ - wt[t]]
             IN IF Plain THEN copy' = [copy EXCEPT ![t] = n] /\ Go(t, "decw") /\ UNCHANGED row
                ELSE row' = n /\ Go(t, "inc") /\ UNCHANGED copy
DecWrite(t) == pc[t] = "decw" /\ row' = copy[t] /\ Go(t, "inc") /\ UNCHANGED <<wt, block, ov, lock, to, copy, left>>
Inc(t) == /\ pc[t] = "inc" /\ UNCHANGED <<wt, ov, lock, to, left>>
          /\ LET n == [row EXCEPT ![to[t]] = @ + wt[t]]
             IN IF Plain THEN copy' = [copy EXCEPT ![t] = n] /\ Go(t, "incw") /\ UNCHANGED <<row, block>>
                ELSE row' = n /\ block' = [block EXCEPT ![t] = to[t]] /\ Go(t, "idle") /\ UNCHANGED copy
IncWrite(t) == /\ pc[t] = "incw" /\ row' = copy[t] /\ block' = [block EXCEPT ![t] = to[t]] /\ Go(t, "idle")
               /\ lock' = (IF lock = t THEN 0 ELSE lock) /\ UNCHANGED <<wt, ov, to, copy, left>>
Next == \E t \in Threads : Start(t) \/ Lock(t) \/ Dec(t) \/ DecWrite(t) \/ Inc(t) \/ IncWrite(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Quiet == \A t \in Threads : pc[t] = "idle"
Exact == Quiet => \A b \in Blocks : row[b] = Row(b)
\* a hashed row has room for one entry per neighbor: never more entries than neighbors
Capacity == Hashed => Cardinality({ b \in Blocks : row[b] > 0 }) <= Cardinality(Threads)
\* whatever a reader sees in between is no more than all edges together
Readable == \A b \in Blocks : row[b] >= 0 /\ row[b] <= SumOver(wt, Threads)
Ends == <>[](Quiet /\ left = 0)
=============================================================================
