--------------------------- MODULE GreedyBalancer ---------------------------
(***************************************************************************)
(* The greedy balancer: one worker per overloaded block. A worker takes    *)
(* the best vertex of its queue, recomputes its best target and moves it   *)
(* there; vertices without adjacent target go to a random block below the  *)
(* average, blocks that refuse a vertex are forgotten by that worker.      *)
(*                                                                         *)
(* Variants (each must be caught):                                         *)
(*   "Retry"   a vertex no block can take is put back into the queue       *)
(*             (the defect fixed by cc3c952: the balancer never returns)   *)
(*   "NoCheck" the move does not check the limit again                     *)
(*   "Lossy"   a vertex is dropped when its move fails                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, FiniteSetsExt, TLC
CONSTANTS V,        \* vertices
          Edges,    \* set of two-element sets of vertices
          Weight,   \* vertex -> weight
          K,        \* number of blocks
          Limit,    \* block -> maximum weight
          Fair,     \* block -> weight of a perfectly balanced block
          Start0,   \* set of initial partitions considered
          Variant
Blocks == 1 .. K
VARIABLES part, bw, queue, feas, pc, cur, tgt, start
vars == <<part, bw, queue, feas, pc, cur, tgt, start>>
W(p, b) == FoldSet(LAMBDA v, a : a + (IF p[v] = b THEN Weight[v] ELSE 0), 0, V)
Over(b) == IF bw[b] > Limit[b] THEN bw[b] - Limit[b] ELSE 0
Total(w) == FoldSet(LAMBDA b, a : a + (IF w[b] > Limit[b] THEN w[b] - Limit[b] ELSE 0), 0, Blocks)

Init == /\ part \in Start0
        /\ start = part
        /\ bw = [b \in Blocks |-> W(part, b)]
        \* a queue holds enough vertices to remove the overload
        /\ queue \in [Blocks -> SUBSET V]
        /\ \A b \in Blocks : /\ queue[b] \subseteq { v \in V : part[v] = b }
                             /\ (bw[b] <= Limit[b] => queue[b] = {})
                             /\ FoldSet(LAMBDA v, a : a + Weight[v], 0, queue[b]) >= (IF bw[b] > Limit[b] THEN bw[b] - Limit[b] ELSE 0)
        /\ feas = [b \in Blocks |-> {}]
        /\ pc = [b \in Blocks |-> "begin"]
        /\ cur = [b \in Blocks |-> CHOOSE v \in V : TRUE]
        /\ tgt = [b \in Blocks |-> b]

Adj(v) == { u \in V : {u, v} \in Edges }
\* adjacent blocks that have room now
Targets(b, v) == { c \in Blocks \ {b} : (\E u \in Adj(v) : part[u] = c) /\ bw[c] + Weight[v] <= Limit[c] }

Begin(b) == /\ pc[b] = "begin"
            /\ feas' = [feas EXCEPT ![b] = { c \in Blocks : bw[c] < Fair[c] }]
            /\ pc' = [pc EXCEPT ![b] = "loop"]
            /\ UNCHANGED <<part, bw, queue, cur, tgt, start>>
Pop(b) == /\ pc[b] = "loop"
          /\ IF Over(b) = 0 \/ queue[b] = {}
             THEN pc' = [pc EXCEPT ![b] = "done"] /\ UNCHANGED <<queue, cur, tgt>>
             ELSE \E v \in queue[b] :
                    /\ queue' = [queue EXCEPT ![b] = @ \ {v}]
                    /\ cur' = [cur EXCEPT ![b] = v]
                    /\ LET T == Targets(b, v) IN
                         IF T = {} THEN tgt' = [tgt EXCEPT ![b] = b] ELSE \E c \in T : tgt' = [tgt EXCEPT ![b] = c]
                    /\ pc' = [pc EXCEPT ![b] = "move"]
          /\ UNCHANGED <<part, bw, feas, start>>
Moved(b, c) == LET v == cur[b] IN
  /\ part' = [part EXCEPT ![v] = c]
  /\ bw' = [bw EXCEPT ![b] = @ - Weight[v], ![c] = @ + Weight[v]]
  \* neighbors of a moved vertex join the queue
  /\ queue' = [queue EXCEPT ![b] = @ \cup { u \in Adj(v) : part[u] = b /\ u # v }]
  /\ pc' = [pc EXCEPT ![b] = "loop"]
Room(b, c) == Variant = "NoCheck" \/ bw[c] + Weight[cur[b]] <= Limit[c]
MoveAdjacent(b) == /\ pc[b] = "move" /\ tgt[b] # b
                   /\ IF Room(b, tgt[b]) THEN Moved(b, tgt[b])
                      ELSE /\ pc' = [pc EXCEPT ![b] = "loop"]
                           /\ queue' = (IF Variant = "Lossy" THEN queue ELSE [queue EXCEPT ![b] = @ \cup {cur[b]}])
                           /\ UNCHANGED <<part, bw>>
                   /\ UNCHANGED <<feas, cur, tgt, start>>
MoveRandom(b) == /\ pc[b] = "move" /\ tgt[b] = b
                 /\ IF feas[b] = {}
                    THEN /\ queue' = (IF Variant = "Retry" THEN [queue EXCEPT ![b] = @ \cup {cur[b]}] ELSE queue)
                         /\ pc' = [pc EXCEPT ![b] = "loop"]
                         /\ UNCHANGED <<part, bw, feas>>
                    ELSE \E c \in feas[b] :
                           IF Room(b, c) THEN Moved(b, c) /\ UNCHANGED feas
                           ELSE feas' = [feas EXCEPT ![b] = @ \ {c}] /\ UNCHANGED <<part, bw, queue, pc>>
                 /\ UNCHANGED <<cur, tgt, start>>
Next == \/ \E b \in Blocks : Begin(b)
        \/ \E b \in Blocks : Pop(b)
        \/ \E b \in Blocks : MoveAdjacent(b)
        \/ \E b \in Blocks : MoveRandom(b)
Spec == Init /\ [][Next]_vars /\ \A b \in Blocks : WF_vars(Begin(b) \/ Pop(b) \/ MoveAdjacent(b) \/ MoveRandom(b))

W0(b) == W(start, b)
Booked == \A b \in Blocks : bw[b] = W(part, b)
Guarded == \A b \in Blocks : bw[b] <= (IF W0(b) > Limit[b] THEN W0(b) ELSE Limit[b])
Done == \A b \in Blocks : pc[b] = "done"
\* with unit weights (and limits that add up to enough) the result is balanced
UnitBalanced == (Done /\ \A v \in V : Weight[v] = 1) => Total(bw) = 0
Returns == <>Done
=============================================================================
