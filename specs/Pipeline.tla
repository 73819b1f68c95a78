------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* What one KaMinPar object does between two calls of its user: the graph  *)
(* is rearranged by degree buckets once per graph (isolated vertices last),*)
(* isolated vertices are cut off, the rest is partitioned, the isolated    *)
(* vertices are put back and filled into the blocks, and the partition is  *)
(* translated back to the caller's numbering.  The object keeps the        *)
(* rearranged graph for later calls.                                       *)
(*                                                                         *)
(* The steps are those of KaMinPar::compute_partition; the partitioner in  *)
(* the middle is any function returning a valid partition of the core that *)
(* fits the bounds.  Checked: whatever it returns, and for every history   *)
(* of graphs and calls, the caller gets a result that satisfies Session.   *)
(***************************************************************************)
EXTENDS Graphs

CONSTANTS MaxN, MaxK, MaxCalls,
          Degree,     \* whether vertices are rearranged by degree buckets
          Variant     \* "ok", or the name of a deliberately broken design

\* every simple graph on n vertices, unit weights
Pairs(n) == { <<u, v>> \in (0 .. n - 1) \X (0 .. n - 1) : u < v }
GraphOf(n, E) == LET Q == SetToSeq(E) IN
  [n |-> n, s |-> [i \in 1 .. Len(Q) |-> Q[i][1]] \o [i \in 1 .. Len(Q) |-> Q[i][2]],
            t |-> [i \in 1 .. Len(Q) |-> Q[i][2]] \o [i \in 1 .. Len(Q) |-> Q[i][1]], vw |-> <<>>, ew |-> <<>>]
AllGraphs == UNION { { GraphOf(n, E) : E \in SUBSET Pairs(n) } : n \in 0 .. MaxN }

Deg(g, u) == Cardinality(Neighbors(g, u))
Bucket(d) == IF d = 0 THEN 99 ELSE IF d = 1 THEN 1 ELSE IF d < 4 THEN 2 ELSE 3   \* isolated vertices last

\* orderings the rearrangement may produce: permutations (sequence: old id + 1 -> new id) sorting the
\* vertices by bucket
Perms(g) == { f \in [1 .. g.n -> 0 .. g.n - 1] :
                /\ \A i, j \in 1 .. g.n : i # j => f[i] # f[j]
                /\ \A i, j \in 1 .. g.n : Bucket(Deg(g, i - 1)) < Bucket(Deg(g, j - 1)) => f[i] < f[j] }
Permute(g, f) == [g EXCEPT !.s = [i \in DOMAIN g.s |-> f[g.s[i] + 1]], !.t = [i \in DOMAIN g.t |-> f[g.t[i] + 1]]]
Id(n) == [i \in 1 .. n |-> i - 1]
Isolated(g) == Cardinality({ u \in Vertices(g) : Deg(g, u) = 0 })
Core(g, iso) == [g EXCEPT !.n = g.n - iso]

VARIABLES
  user,      \* the caller's graph
  g,         \* the object's graph
  perm,      \* caller's vertex u is the object's vertex perm[u + 1]
  sorted, rearranged,
  pc,        \* position inside the current call
  iso,       \* isolated vertices cut off at present
  k, L,      \* the current request
  p,         \* partition of the object's graph (so far)
  res,       \* what the caller got
  calls
vars == <<user, g, perm, sorted, rearranged, pc, iso, k, L, p, res, calls>>

None == [n |-> 0, s |-> <<>>, t |-> <<>>, vw |-> <<>>, ew |-> <<>>]

Init == /\ user = None /\ g = None /\ perm = <<>> /\ sorted = FALSE /\ rearranged = FALSE
        /\ pc = "nograph" /\ iso = 0 /\ k = 1 /\ L = 0 /\ p = <<>> /\ res = <<>> /\ calls = 0

SetGraph == /\ pc \in {"nograph", "idle"} /\ calls < MaxCalls
            /\ \E h \in AllGraphs : user' = h /\ g' = h /\ perm' = Id(h.n)
            /\ sorted' = FALSE
            /\ rearranged' = IF Variant = "StaleFlag" THEN rearranged ELSE FALSE
            /\ pc' = "idle" /\ iso' = 0 /\ calls' = calls + 1
            /\ UNCHANGED <<k, L, p, res>>

Call == /\ pc = "idle" /\ calls < MaxCalls
        /\ \E kk \in 1 .. MaxK : k' = kk /\ \E slack \in 0 .. 1 : L' = CeilDiv(g.n, kk) + slack
        /\ pc' = "rearrange" /\ calls' = calls + 1
        /\ UNCHANGED <<user, g, perm, sorted, rearranged, iso, p, res>>

Rearrange == /\ pc = "rearrange"
             /\ IF Degree /\ ~rearranged /\ ~sorted
                  THEN \E f \in Perms(g) :
                         /\ g' = Permute(g, f)
                         /\ perm' = [i \in 1 .. g.n |-> f[perm[i] + 1]]
                         /\ sorted' = TRUE
                  ELSE UNCHANGED <<g, perm, sorted>>
             /\ rearranged' = TRUE
             /\ pc' = "cut off"
             /\ UNCHANGED <<user, iso, k, L, p, res, calls>>

CutOff == /\ pc = "cut off"
          /\ iso' = IF sorted THEN Isolated(g) ELSE 0
          /\ pc' = "partition"
          /\ UNCHANGED <<user, g, perm, sorted, rearranged, k, L, p, res, calls>>

\* any valid partition of the core within the bounds
PartitionCore == /\ pc = "partition"
                 /\ \E q \in [1 .. g.n - iso -> 0 .. k - 1] :
                      /\ \A b \in 0 .. k - 1 : Cardinality({ i \in DOMAIN q : q[i] = b }) <= L
                      /\ p' = q
                 /\ pc' = "reintegrate"
                 /\ UNCHANGED <<user, g, perm, sorted, rearranged, iso, k, L, res, calls>>

\* isolated vertices are filled into the blocks from left to right
RECURSIVE Fill(_, _, _)
Fill(q, b, left) ==
  IF left = 0 THEN q
  ELSE LET w == Cardinality({ i \in DOMAIN q : q[i] = b }) IN
       IF b + 1 < k /\ w + 1 > L + (IF Variant = "FillTooMuch" THEN 1 ELSE 0) THEN Fill(q, b + 1, left)
       ELSE Fill(Append(q, b), b, left - 1)

Reintegrate == /\ pc = "reintegrate"
               /\ p' = IF Variant = "ForgetIsolated" THEN p ELSE Fill(p, 0, iso)
               /\ iso' = 0
               /\ pc' = "return"
               /\ UNCHANGED <<user, g, perm, sorted, rearranged, k, L, res, calls>>

Return == /\ pc = "return"
          /\ res' = IF Variant = "NoMapBack" \/ Len(p) # user.n THEN p ELSE [u \in 1 .. user.n |-> p[perm[u] + 1]]
          /\ pc' = "idle"
          /\ UNCHANGED <<user, g, perm, sorted, rearranged, iso, k, L, p, calls>>

Next == SetGraph \/ Call \/ Rearrange \/ CutOff \/ PartitionCore \/ Reintegrate \/ Return

\* ---------------------------------------------------------------- properties
JustReturned == pc = "return"
Answer == IF Variant = "NoMapBack" \/ Len(p) # user.n THEN p ELSE [u \in 1 .. user.n |-> p[perm[u] + 1]]
CompleteAnswer == JustReturned => ValidAssignment(user.n, Answer, k)
\* the cut reported to the caller is computed on the object's graph
CutOfAnswer == JustReturned /\ Len(p) = g.n => Cut2(user, Answer) = Cut2(g, p)
BalancedAnswer == JustReturned => \A b \in 0 .. k - 1 : Cardinality({ i \in DOMAIN Answer : Answer[i] = b }) <= L
\* the object's graph is the caller's graph under the recorded permutation, isolated vertices at the end
SameGraph == pc # "nograph" =>
  /\ g.n = user.n
  /\ { <<perm[user.s[i] + 1], perm[user.t[i] + 1]>> : i \in DOMAIN user.s } = { <<g.s[i], g.t[i]>> : i \in DOMAIN g.s }
CoreHasAllEdges == pc \in {"partition", "reintegrate"} => \A i \in DOMAIN g.s : g.s[i] < g.n - iso /\ g.t[i] < g.n - iso
=============================================================================
