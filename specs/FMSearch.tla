------------------------------ MODULE FMSearch ------------------------------
(***************************************************************************)
(* Localized FM searches: workers poll border vertices, grow a search from *)
(* them, move vertices in a private delta partition and publish the delta  *)
(* whenever the total gain of the batch reaches a new maximum. Vertices    *)
(* are owned by at most one search and move at most once per iteration.    *)
(*                                                                         *)
(* Publishing is not atomic: one vertex at a time becomes visible to the   *)
(* others, so with several workers neither the cut nor the limits are      *)
(* guaranteed (see the properties marked "alone").                         *)
(*                                                                         *)
(* Variants (each must be caught):                                         *)
(*   "NoClear"  the delta is kept after it was published                   *)
(*   "NoLock"   a neighbor is taken without asking for ownership           *)
(*   "Keep"     worse prefixes are published, too                          *)
(*   "NoLimit"  local moves do not check the limit                         *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Workers, V, Edges, Weight, Limit, Variant
Blocks == {1, 2}
VARIABLES part, bw, owner, delta, pq, gain, best, pc, out, moved, sum, start
vars == <<part, bw, owner, delta, pq, gain, best, pc, out, moved, sum, start>>
Free == 0
Done == -2  \* moved for good
Local == -1 \* moved in a delta

Other(b) == 3 - b
Adj(v) == { u \in V : {u, v} \in Edges }
Cut(p) == Cardinality({ e \in Edges : \E u, v \in e : p[u] # p[v] })
W(p, b) == FoldSet(LAMBDA v, a : a + (IF p[v] = b THEN Weight[v] ELSE 0), 0, V)
Border(p) == { v \in V : \E u \in Adj(v) : p[u] # p[v] }

\* the partition worker w sees
Seen(w) == [v \in V |-> IF delta[w][v] = 0 THEN part[v] ELSE delta[w][v]]
SeenW(w, b) == bw[b] + FoldSet(LAMBDA v, a : a + (IF delta[w][v] = 0 \/ delta[w][v] = part[v] THEN 0
                                                 ELSE IF delta[w][v] = b THEN Weight[v]
                                                 ELSE IF part[v] = b THEN -Weight[v] ELSE 0), 0, V)
Gain(p, v) == Cardinality({ u \in Adj(v) : p[u] # p[v] }) - Cardinality({ u \in Adj(v) : p[u] = p[v] })

NoDelta == [v \in V |-> 0]
Init == /\ part \in [V -> Blocks] /\ start = part
        /\ bw = [b \in Blocks |-> W(part, b)]
        /\ \A b \in Blocks : bw[b] <= Limit
        /\ owner = [v \in V |-> Free]
        /\ delta = [w \in Workers |-> NoDelta]
        /\ pq = [w \in Workers |-> {}]
        /\ gain = [w \in Workers |-> 0] /\ best = [w \in Workers |-> 0]
        /\ pc = [w \in Workers |-> "poll"]
        /\ out = [w \in Workers |-> {}]
        /\ moved = [v \in V |-> 0]
        /\ sum = 0

Poll(w) == /\ pc[w] = "poll"
           /\ \E v \in Border(start) : /\ owner[v] = Free
                                       /\ owner' = [owner EXCEPT ![v] = w]
                                       /\ pq' = [pq EXCEPT ![w] = {v}]
           /\ gain' = [gain EXCEPT ![w] = 0] /\ best' = [best EXCEPT ![w] = 0]
           /\ pc' = [pc EXCEPT ![w] = "search"]
           /\ UNCHANGED <<part, bw, delta, out, moved, sum, start>>

\* take v off the queue; move it if there is room
Take(w, v) ==
  LET p == Seen(w)
      to == Other(p[v])
      g == Gain(p, v)
      new == { u \in Adj(v) : owner[u] = Free \/ (Variant = "NoLock" /\ owner[u] >= 0) }
  IN /\ pc[w] = "search" /\ v \in pq[w]
     /\ IF SeenW(w, to) + Weight[v] <= Limit \/ Variant = "NoLimit"
        THEN /\ gain' = [gain EXCEPT ![w] = @ + g]
             /\ pq' = [pq EXCEPT ![w] = (@ \ {v}) \cup new]
             /\ IF gain[w] + g > best[w] \/ Variant = "Keep"
                THEN /\ best' = [best EXCEPT ![w] = gain[w] + g]
                     /\ sum' = sum + gain[w] + g - best[w]
                     /\ out' = [out EXCEPT ![w] = { <<u, delta[w][u]>> : u \in { x \in V : delta[w][x] # 0 } } \cup {<<v, to>>}]
                     /\ delta' = (IF Variant = "NoClear" THEN delta ELSE [delta EXCEPT ![w] = NoDelta])
                     /\ owner' = [u \in V |-> IF u = v \/ delta[w][u] # 0 THEN Done ELSE IF u \in new THEN w ELSE owner[u]]
                     /\ pc' = [pc EXCEPT ![w] = "publish"]
                ELSE /\ delta' = [delta EXCEPT ![w][v] = to]
                     /\ owner' = [u \in V |-> IF u = v THEN Local ELSE IF u \in new THEN w ELSE owner[u]]
                     /\ UNCHANGED <<best, sum, out, pc>>
        ELSE /\ pq' = [pq EXCEPT ![w] = @ \ {v}]
             /\ owner' = [owner EXCEPT ![v] = Local]
             /\ UNCHANGED <<gain, best, sum, out, delta, pc>>
     /\ UNCHANGED <<part, bw, moved, start>>

\* one published move becomes visible
Publish(w) == /\ pc[w] = "publish"
              /\ \E m \in out[w] :
                   /\ part' = [part EXCEPT ![m[1]] = m[2]]
                   /\ bw' = (IF part[m[1]] = m[2] THEN bw ELSE [bw EXCEPT ![part[m[1]]] = @ - Weight[m[1]], ![m[2]] = @ + Weight[m[1]]])
                   /\ moved' = [moved EXCEPT ![m[1]] = @ + 1]
                   /\ out' = [out EXCEPT ![w] = @ \ {m}]
                   /\ pc' = (IF out[w] = {m} THEN [pc EXCEPT ![w] = "search"] ELSE pc)
              /\ UNCHANGED <<owner, delta, pq, gain, best, sum, start>>

\* the batch ends: roll the delta back, release what was not moved
End(w) == /\ pc[w] = "search"
          /\ owner' = [v \in V |-> IF owner[v] = w \/ (owner[v] = Local /\ delta[w][v] # 0) THEN Free ELSE owner[v]]
          /\ delta' = [delta EXCEPT ![w] = NoDelta]
          /\ pq' = [pq EXCEPT ![w] = {}]
          /\ pc' = [pc EXCEPT ![w] = "rest"]
          /\ UNCHANGED <<part, bw, gain, best, out, moved, sum, start>>
Again(w) == pc[w] = "rest" /\ pc' = [pc EXCEPT ![w] = "poll"] /\ UNCHANGED <<part, bw, owner, delta, pq, gain, best, out, moved, sum, start>>
Next == \/ \E w \in Workers : Poll(w)
        \/ \E w \in Workers, v \in V : Take(w, v)
        \/ \E w \in Workers : Publish(w)
        \/ \E w \in Workers : End(w)
        \/ \E w \in Workers : Again(w)
Spec == Init /\ [][Next]_vars

Quiet == \A w \in Workers : pc[w] # "publish"
Booked == \A b \in Blocks : bw[b] = W(part, b)
Once == \A v \in V : moved[v] <= 1
Exclusive == \A v, w \in Workers : v # w => pq[v] \cap pq[w] = {}
\* alone: expected gains are real, nothing but improvements is published, limits hold
Exact == Quiet => Cut(start) - Cut(part) = sum
Improves == Quiet => Cut(part) <= Cut(start)
Limited == Quiet => \A b \in Blocks : bw[b] <= Limit
=============================================================================
