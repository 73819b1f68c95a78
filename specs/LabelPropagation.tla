-------------------------- MODULE LabelPropagation --------------------------
(***************************************************************************)
(* Parallel size-constrained label propagation (label_propagation.h):      *)
(* a thread picks a vertex and a target cluster, checks the weight limit   *)
(* against the current (relaxed) weight, then adds its weight to the new   *)
(* cluster and removes it from the old one, and finally changes the label. *)
(* Check and addition are separate steps (RelaxedClusterWeightVector) or,  *)
(* in the refiner, one compare-and-swap (Atomic = TRUE).                   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Threads, Nodes, MaxWeight, Atomic, Moves, Variant, MaxVertexWeight
ASSUME Variant \in {"ok", "NoCheck", "ForgetOld"}
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
VARIABLES w,      \* vertex weights
          label, weight,   \* cluster of every vertex; tracked weight of every cluster
          pc, node, target, owner, left
vars == <<w, label, weight, pc, node, target, owner, left>>

Sum(S) == LET RECURSIVE f(_) f(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN w[x] + f(T \ {x}) IN f(S)
Init == /\ w \in [Nodes -> 1 .. MaxVertexWeight]
        /\ label = [u \in Nodes |-> u] /\ weight = w
        /\ pc = [t \in Threads |-> "pick"] /\ node = [t \in Threads |-> 0] /\ target = [t \in Threads |-> 0]
        /\ owner = [u \in Nodes |-> FALSE] /\ left = Moves

\* every vertex is handled by one thread at a time
Pick(t) == /\ pc[t] = "pick" /\ left > 0 /\ left' = left - 1
           /\ \E u \in Nodes, c \in Nodes : /\ ~owner[u] /\ c # label[u]
                                            /\ node' = [node EXCEPT ![t] = u] /\ target' = [target EXCEPT ![t] = c]
                                            /\ owner' = [owner EXCEPT ![u] = TRUE]
           /\ pc' = [pc EXCEPT ![t] = "check"] /\ UNCHANGED <<w, label, weight>>
Fits(t) == weight[target[t]] + w[node[t]] <= MaxWeight \/ Variant = "NoCheck"
Release(t) == owner' = [owner EXCEPT ![node[t]] = FALSE] /\ pc' = [pc EXCEPT ![t] = "pick"]
Check(t) == /\ pc[t] = "check" /\ ~Atomic
            /\ IF Fits(t) THEN pc' = [pc EXCEPT ![t] = "add"] /\ UNCHANGED owner ELSE Release(t)
            /\ UNCHANGED <<w, label, weight, node, target, left>>
Add(t) == /\ pc[t] = "add" \/ (Atomic /\ pc[t] = "check" /\ Fits(t))
          /\ weight' = [weight EXCEPT ![target[t]] = @ + w[node[t]]]
          /\ pc' = [pc EXCEPT ![t] = "sub"] /\ UNCHANGED <<w, label, node, target, owner, left>>
Fail(t) == /\ Atomic /\ pc[t] = "check" /\ ~Fits(t) /\ Release(t) /\ UNCHANGED <<w, label, weight, node, target, left>>
Sub(t) == /\ pc[t] = "sub"
          /\ weight' = IF Variant = "ForgetOld" THEN weight ELSE [weight EXCEPT ![label[node[t]]] = @ - w[node[t]]]
          /\ pc' = [pc EXCEPT ![t] = "move"] /\ UNCHANGED <<w, label, node, target, owner, left>>
Move(t) == /\ pc[t] = "move" /\ label' = [label EXCEPT ![node[t]] = target[t]] /\ Release(t)
           /\ UNCHANGED <<w, weight, node, target, left>>
Next == \E t \in Threads : Pick(t) \/ Check(t) \/ Add(t) \/ Fail(t) \/ Sub(t) \/ Move(t)
Spec == Init /\ [][Next]_vars

Members(c) == { u \in Nodes : label[u] = c }
Quiet == \A t \in Threads : pc[t] = "pick"
\* what the trace specification demands of the real code
Bound == MaxWeight + (IF Atomic THEN 0 ELSE (Cardinality(Threads) - 1) * MaxVertexWeight)
WeightLimit == Quiet => \A c \in Nodes : Cardinality(Members(c)) > 1 => Sum(Members(c)) <= Bound
Tracked == Quiet => \A c \in Nodes : weight[c] = Sum(Members(c))
NonNegative == \A c \in Nodes : weight[c] >= 0
=============================================================================
