-------------------------- MODULE BinaryReduction ---------------------------
(***************************************************************************)
(* Combining one value per PE on PE 0 along a binary tree: in every round  *)
(* the upper half of the active PEs sends to the lower half; with an odd   *)
(* number of active PEs, PE 0 skips the round. Sends complete when the     *)
(* message was sent (buffered) or received (Rendezvous).                   *)
(* Variant "Zero": PE 0 never skips (PEs may then wait for each other).    *)
(***************************************************************************)
EXTENDS Graphs
CONSTANTS Sizes, Variant
VARIABLES size, active, val, chan, state
vars == <<size, active, val, chan, state>>
PEs == 0 .. size - 1
Init == /\ size \in Sizes
        /\ active = [p \in 0 .. size - 1 |-> size]
        /\ val = [p \in 0 .. size - 1 |-> <<p>>]
        /\ chan = [p \in 0 .. size - 1 |-> <<>>] \* messages sent to p: <<sender, value>>
        /\ state = [p \in 0 .. size - 1 |-> "run"]
Role(p) == IF p = 0 /\ active[p] % 2 = 1 /\ Variant # "Zero" THEN "noop"
           ELSE IF p < CeilDiv(active[p], 2) THEN "recv" ELSE "send"
Halve(p) == active' = [active EXCEPT ![p] = CeilDiv(@, 2)]
Skip(p) == /\ state[p] = "run" /\ active[p] > 1 /\ Role(p) = "noop" /\ Halve(p) /\ UNCHANGED <<size, val, chan, state>>
Send(p) == /\ state[p] = "run" /\ active[p] > 1 /\ Role(p) = "send"
           /\ \E to \in {p - active[p] \div 2} :
              chan' = [chan EXCEPT ![to] = Append(@, <<p, val[p]>>)]
           /\ val' = [val EXCEPT ![p] = <<>>] /\ state' = [state EXCEPT ![p] = "done"] /\ UNCHANGED <<size, active>>
\* receives from one particular PE
Recv(p) == /\ state[p] = "run" /\ active[p] > 1 /\ Role(p) = "recv"
           /\ \E i \in 1 .. Len(chan[p]) :
              /\ chan[p][i][1] = p + active[p] \div 2
              /\ val' = [val EXCEPT ![p] = @ \o chan[p][i][2]]
              /\ chan' = [chan EXCEPT ![p] = RemoveAt(@, i)]
           /\ Halve(p) /\ UNCHANGED <<size, state>>
Finish(p) == state[p] = "run" /\ active[p] <= 1 /\ state' = [state EXCEPT ![p] = "done"] /\ UNCHANGED <<size, active, val, chan>>
StepSkip == \E p \in PEs : Skip(p)
StepSend == \E p \in PEs : Send(p)
StepRecv == \E p \in PEs : Recv(p)
StepFinish == \E p \in PEs : Finish(p)
Next == StepSkip \/ StepSend \/ StepRecv \/ StepFinish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AllDone == \A p \in PEs : state[p] = "done"
\* PE 0 ends with every value exactly once; all others with none
Complete == AllDone => /\ Len(val[0]) = size /\ ToSet(val[0]) = PEs
                       /\ \A p \in PEs \ {0} : val[p] = <<>>
                       /\ \A p \in PEs : chan[p] = <<>>
Ends == <>AllDone
=============================================================================
