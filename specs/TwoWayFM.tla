------------------------------ MODULE TwoWayFM ------------------------------
(***************************************************************************)
(* Two-way local search of the initial bipartitioning: vertices are moved  *)
(* one after another (each at most once), the best prefix of moves is      *)
(* remembered and the rest is undone at the end. Which vertex moves next   *)
(* and when the search stops is left open (queues, stopping rules).        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, FiniteSetsExt
CONSTANTS V, MaxW, MaxLim, Variant
Pairs == { e \in SUBSET V : Cardinality(e) = 2 }
VARIABLES E, w, lim,     \* the graph (set of edges), vertex weights, limits
          p, p0,         \* blocks (0/1) now and at the beginning
          marked, moves, \* vertices that were moved, those since the accepted state in order
          delta, acc,    \* change of the cut now and at the accepted state
          accOver, phase
vars == <<E, w, lim, p, p0, marked, moves, delta, acc, accOver, phase>>

Cut(q) == Cardinality({ e \in E : \E a, b \in e : q[a] # q[b] })
Weight(q, b) == FoldSet(LAMBDA u, s : s + (IF q[u] = b THEN w[u] ELSE 0), 0, V)
Pos(x) == IF x > 0 THEN x ELSE 0
Over(q) == Pos(Weight(q, 0) - lim[1]) + Pos(Weight(q, 1) - lim[2])
Gain(u) == Cardinality({ e \in E : u \in e /\ \A a \in e : p[a] = p[u] }) - Cardinality({ e \in E : u \in e /\ \E a \in e : p[a] # p[u] })

Init == /\ E \in SUBSET Pairs /\ w \in [V -> 1 .. MaxW] /\ lim \in [1 .. 2 -> 1 .. MaxLim]
        /\ p0 \in [V -> {0, 1}] /\ p = p0
        /\ marked = {} /\ moves = <<>> /\ delta = 0 /\ acc = 0 /\ accOver = Over(p0) /\ phase = "search"

Move == /\ phase = "search"
        /\ \E u \in V \ marked :
             LET q == [p EXCEPT ![u] = 1 - @]  d == delta + Gain(u)  o == Over(q)
                 ok == (IF Variant = "AnyOverload" THEN TRUE ELSE o <= accOver) /\ (IF Variant = "Worse" THEN d <= acc + 1 ELSE d < acc)
             IN /\ p' = q /\ marked' = marked \cup {u} /\ delta' = d
                /\ IF ok THEN acc' = d /\ accOver' = o /\ moves' = (IF Variant = "KeepMoves" THEN Append(moves, u) ELSE <<>>)
                         ELSE moves' = Append(moves, u) /\ UNCHANGED <<acc, accOver>>
        /\ UNCHANGED <<E, w, lim, p0, phase>>
Undo == /\ phase = "search"
        /\ p' = [u \in V |-> IF (\E i \in 1 .. Len(moves) : moves[i] = u) /\ Variant # "NoUndo" THEN 1 - p[u] ELSE p[u]]
        /\ phase' = "done"
        /\ UNCHANGED <<E, w, lim, p0, marked, moves, delta, acc, accOver>>
Next == Move \/ Undo
Spec == Init /\ [][Next]_vars

Tracked == phase = "search" => delta = Cut(p) - Cut(p0)
NeverWorse == phase = "done" => /\ Cut(p) = Cut(p0) + acc /\ Cut(p) <= Cut(p0)
                                /\ Over(p) = accOver /\ Over(p) <= Over(p0)
=============================================================================
