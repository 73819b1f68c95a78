----------------------------- MODULE DistMoves -----------------------------
(***************************************************************************)
(* Probabilistic moves of the distributed label propagation refiners: each *)
(* PE moves some of its own vertices, the changes of all block weights are *)
(* summed up, and unless a block would exceed its limit by growing, every  *)
(* PE commits its moves and reports them to the PEs that know the moved    *)
(* vertices as ghosts; otherwise all of them roll back.  Whatever the PEs  *)
(* choose and however fast they are, between rounds every PE knows the     *)
(* block of every vertex and the exact block weights, and no block has     *)
(* grown beyond its limit.                                                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS PEs, Vs, Blocks, Lim, Rounds
VARIABLES own, view, weight, moved, delta, pc, mail, round
vars == <<own, view, weight, moved, delta, pc, mail, round>>
\* vertex v belongs to PE v mod PEs; its weight is 1 or 2
V == 0 .. Vs - 1
P == 0 .. PEs - 1
B == 0 .. Blocks - 1
Owner(v) == v - PEs * (v \div PEs)
VWeight(v) == 1 + v - 2 * (v \div 2)
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
WeightOf(part, b) == Sum([v \in V |-> IF part[v] = b THEN VWeight(v) ELSE 0], V)
Real == [v \in V |-> view[Owner(v)][v]]
NoDelta == [b \in B |-> 0]

Init == /\ own \in [V -> B]                             \* the partition when the round began
        /\ view = [p \in P |-> own]
        /\ weight = [p \in P |-> [b \in B |-> WeightOf(own, b)]]
        /\ moved = [p \in P |-> {}]
        /\ delta = [p \in P |-> NoDelta]
        /\ pc = [p \in P |-> "move"]
        /\ mail = [p \in P |-> {}]
        /\ round = 0
\* a vertex moves only if its target has room for it alone
Move(p) ==
  /\ pc[p] = "move"
  /\ \E M \in SUBSET { v \in V : Owner(v) = p } : \E t \in [M -> B] :
       /\ \A v \in M : t[v] # view[p][v] /\ weight[p][t[v]] + VWeight(v) <= Lim
       /\ view' = [view EXCEPT ![p] = [v \in V |-> IF v \in M THEN t[v] ELSE view[p][v]]]
       /\ delta' = [delta EXCEPT ![p] = [b \in B |->
            Sum([v \in M |-> IF t[v] = b THEN VWeight(v) ELSE IF view[p][v] = b THEN 0 - VWeight(v) ELSE 0], M)]]
       /\ moved' = [moved EXCEPT ![p] = M]
  /\ pc' = [pc EXCEPT ![p] = "sum"]
  /\ UNCHANGED <<own, weight, mail, round>>
\* the allreduce: nobody leaves it before everybody entered
Total(b) == Sum([p \in P |-> delta[p][b]], P)
Reduce == /\ \A p \in P : pc[p] = "sum"
          /\ delta' = [p \in P |-> [b \in B |-> Total(b)]]
          /\ pc' = [p \in P |-> "decide"]
          /\ UNCHANGED <<own, view, weight, moved, mail, round>>
Feasible(p) == \A b \in B : delta[p][b] > 0 => weight[p][b] + delta[p][b] <= Lim
Commit(p) ==
  /\ pc[p] = "decide" /\ Feasible(p)
  /\ weight' = [weight EXCEPT ![p] = [b \in B |-> weight[p][b] + delta[p][b]]]
  /\ mail' = [q \in P |-> IF q = p THEN mail[q] ELSE mail[q] \cup { <<v, view[p][v]>> : v \in moved[p] }]
  /\ pc' = [pc EXCEPT ![p] = "sent"]
  /\ UNCHANGED <<own, view, moved, delta, round>>
Rollback(p) ==
  /\ pc[p] = "decide" /\ ~Feasible(p)
  /\ view' = [view EXCEPT ![p] = [v \in V |-> IF v \in moved[p] THEN own[v] ELSE view[p][v]]]
  /\ pc' = [pc EXCEPT ![p] = "sent"]
  /\ UNCHANGED <<own, weight, moved, delta, mail, round>>
\* the all-to-all exchange returns after everybody sent; messages are applied in any order
Receive(p) ==
  /\ pc[p] = "sent" /\ \A q \in P : pc[q] \in {"sent", "done"}
  /\ \E m \in mail[p] :
       /\ view' = [view EXCEPT ![p][m[1]] = m[2]]
       /\ mail' = [mail EXCEPT ![p] = @ \ {m}]
  /\ UNCHANGED <<own, weight, moved, delta, pc, round>>
Finish(p) ==
  /\ pc[p] = "sent" /\ mail[p] = {} /\ \A q \in P : pc[q] \in {"sent", "done"}
  /\ pc' = [pc EXCEPT ![p] = "done"]
  /\ UNCHANGED <<own, view, weight, moved, delta, mail, round>>
Again == /\ \A p \in P : pc[p] = "done"
         /\ round + 1 < Rounds
         /\ round' = round + 1
         /\ own' = Real
         /\ moved' = [p \in P |-> {}] /\ delta' = [p \in P |-> NoDelta]
         /\ pc' = [p \in P |-> "move"]
         /\ UNCHANGED <<view, weight, mail>>
MoveP == \E p \in P : Move(p)
CommitP == \E p \in P : Commit(p)
RollbackP == \E p \in P : Rollback(p)
ReceiveP == \E p \in P : Receive(p)
FinishP == \E p \in P : Finish(p)
Next == MoveP \/ Reduce \/ CommitP \/ RollbackP \/ ReceiveP \/ FinishP \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Quiet == \A p \in P : pc[p] = "done"
Agree == Quiet => \A p \in P : view[p] = Real /\ \A b \in B : weight[p][b] = WeightOf(Real, b)
NoNewOverload == Quiet => \A b \in B : LET w == WeightOf(Real, b) IN w > WeightOf(own, b) => w <= Lim
\* all PEs decide alike
Together == \A p, q \in P : (pc[p] = "decide" /\ pc[q] = "decide") => (Feasible(p) <=> Feasible(q))
Finishes == <>(Quiet /\ round = Rounds - 1)
=============================================================================
