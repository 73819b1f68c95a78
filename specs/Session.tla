------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A KaMinPar object as its user sees it: a graph is handed over (copied,  *)
(* borrowed, compressed or moved in), the random number generators may be  *)
(* reseeded, and partitions are computed, any number of times, in any      *)
(* order.  One action per call of the public interface; a call that        *)
(* returns has to produce an assignment of *the caller's* vertices.        *)
(***************************************************************************)
EXTENDS Graphs

VARIABLES
  hasObj,   \* an object exists
  obj,      \* [preset, threads] of the current object
  hasGraph, \* a graph has been handed over
  graph,    \* the graph set last, in the caller's numbering
  calls,    \* number of calls of the session so far (position in its history)
  last,     \* the last result [p, cut, k]
  memo      \* results of single-threaded sessions: <<session id, position>> -> [p, cut]

vars == <<hasObj, obj, hasGraph, graph, calls, last, memo>>

NoGraph == [n |-> 0, s |-> <<>>, t |-> <<>>, vw |-> <<>>, ew |-> <<>>]
NoResult == [p |-> <<>>, cut |-> 0, k |-> 0]

\* Presets without a balancing refiner make no promise about balance.
Unbalanced == {"noref", "restricted-vcycle"}

\* the balance constraint for an imbalance of eps/1000 (weights are integers)
Lmax(g, k, eps) == ((1000 + eps) * CeilDiv(TotalVW(g), k)) \div 1000

UnitWeights(g) == g.vw = <<>>

\* ---------------------------------------------------------------- what a result has to satisfy
Complete(g, k, p) == ValidAssignment(g.n, p, k)
RealCut(g, p, cut) == Cut2(g, p) = 2 * cut
\* with maximum weights per block (maxw # <<>>) or the uniform bound derived from eps
WithinBounds(g, k, eps, maxw, p) ==
  \E bw \in {BlockWeights(g, p, k)} :       \* (evaluated once)
    IF maxw = <<>> THEN \E L \in {Lmax(g, k, eps)} : \A b \in 1 .. k : bw[b] <= L
                   ELSE Len(maxw) = k /\ \A b \in 1 .. k : bw[b] <= maxw[b]
BalanceGuaranteed(preset, g) == UnitWeights(g) /\ preset \notin Unbalanced

\* ---------------------------------------------------------------- actions
Init == /\ hasObj = FALSE /\ obj = [preset |-> "", threads |-> 0] /\ hasGraph = FALSE /\ graph = NoGraph
        /\ calls = 0 /\ last = NoResult /\ memo = <<>>

New(preset, threads) ==
  /\ hasObj' = TRUE /\ obj' = [preset |-> preset, threads |-> threads]
  /\ hasGraph' = FALSE /\ graph' = NoGraph /\ calls' = 0 /\ last' = NoResult /\ UNCHANGED memo

SetGraph(g) ==
  /\ hasObj
  /\ Holds(WellFormed(g))
  /\ hasGraph' = TRUE /\ graph' = g /\ calls' = calls + 1 /\ UNCHANGED <<hasObj, obj, last, memo>>

Reseed == /\ hasObj /\ calls' = calls + 1 /\ UNCHANGED <<hasObj, obj, hasGraph, graph, last, memo>>

\* a partition is computed; `balanced` says whether its balance is to be judged
Result(k, p, cut) ==
  /\ hasObj /\ hasGraph /\ k >= 1
  /\ Holds(Complete(graph, k, p))
  /\ Holds(RealCut(graph, p, cut))
  /\ last' = [p |-> p, cut |-> cut, k |-> k]
  /\ calls' = calls + 1
  /\ UNCHANGED <<hasObj, obj, hasGraph, graph>>

Partition(k, p, cut) == Result(k, p, cut) /\ UNCHANGED memo

PartitionBalanced(k, eps, maxw, p, cut) ==
  /\ Result(k, p, cut) /\ UNCHANGED memo
  /\ Holds(BalanceGuaranteed(obj.preset, graph) => WithinBounds(graph, k, eps, maxw, p))

\* The same single-threaded history on a fresh object gives the same result, whatever other objects
\* did in between.
Remember(key, p, cut) ==
  IF key \in DOMAIN memo
    THEN memo[key] = [p |-> p, cut |-> cut] /\ UNCHANGED memo
    ELSE memo' = memo @@ (key :> [p |-> p, cut |-> cut])

PartitionDet(key, k, p, cut) ==
  /\ obj.threads = 1
  /\ Result(k, p, cut)
  /\ Remember(key, p, cut)
=============================================================================
