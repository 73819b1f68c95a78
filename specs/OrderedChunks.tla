--------------------------- MODULE OrderedChunks ---------------------------
(***************************************************************************)
(* Threads compress chunks concurrently; the position of a chunk in the    *)
(* output is known once all chunks with smaller tickets have announced     *)
(* their size.  A ring buffer with Slots = Threads + 1 entries passes the  *)
(* running total from ticket to ticket: an entry is locked from the moment *)
(* its ticket is drawn until the size is known.                            *)
(*                                                                         *)
(* Steps of a thread: draw a ticket (lock its slot); wait for the slot of  *)
(* the previous ticket; write the own slot and unlock it.                  *)
(* With Slots = Threads, a slot may be drawn again while it is locked or   *)
(* still to be read.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Threads, Slots, Chunks

VARIABLES counter, val, locked, pc, ticket, got, bad
vars == <<counter, val, locked, pc, ticket, got, bad>>
T == 1 .. Threads
Size(c) == c + 1                  \* announced size of chunk c (any positive function)
RECURSIVE Before(_)
Before(c) == IF c = 0 THEN 0 ELSE Before(c - 1) + Size(c - 1)
Slot(c) == c % Slots
Prev(c) == IF Slot(c) = 0 THEN Slots - 1 ELSE Slot(c) - 1

Init == /\ counter = 0 /\ val = [s \in 0 .. Slots - 1 |-> 0]
        /\ locked = [s \in 0 .. Slots - 1 |-> FALSE]
        /\ pc = [t \in T |-> "idle"] /\ ticket = [t \in T |-> 0]
        /\ got = [c \in 0 .. Chunks - 1 |-> 0] /\ bad = FALSE

Draw(t) == /\ pc[t] = "idle" /\ counter < Chunks
           /\ ticket' = [ticket EXCEPT ![t] = counter] /\ counter' = counter + 1
           /\ bad' = (bad \/ locked[Slot(counter)])        \* try_lock has to succeed
           /\ locked' = [locked EXCEPT ![Slot(counter)] = TRUE]
           /\ pc' = [pc EXCEPT ![t] = "wait"] /\ UNCHANGED <<val, got>>
Read(t) == /\ pc[t] = "wait" /\ ~locked[Prev(ticket[t])]
           /\ got' = [got EXCEPT ![ticket[t]] = val[Prev(ticket[t])]]
           /\ pc' = [pc EXCEPT ![t] = "write"] /\ UNCHANGED <<counter, val, locked, ticket, bad>>
Write(t) == /\ pc[t] = "write"
            /\ val' = [val EXCEPT ![Slot(ticket[t])] = got[ticket[t]] + Size(ticket[t])]
            /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<counter, locked, ticket, got, bad>>
Unlock(t) == /\ pc[t] = "unlock"
             /\ locked' = [locked EXCEPT ![Slot(ticket[t])] = FALSE]
             /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<counter, val, ticket, got, bad>>
Done == counter = Chunks /\ (\A t \in T : pc[t] = "idle") /\ UNCHANGED vars
Next == (\E t \in T : Draw(t) \/ Read(t) \/ Write(t) \/ Unlock(t)) \/ Done
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Read(t)) /\ WF_vars(Write(t)) /\ WF_vars(Unlock(t)) /\ WF_vars(Draw(t))

SlotsFree == ~bad
InOrder == \A t \in T : pc[t] \in {"write", "unlock"} => got[ticket[t]] = Before(ticket[t])
AllPlaced == <>(counter = Chunks /\ \A t \in T : pc[t] = "idle")
=============================================================================
