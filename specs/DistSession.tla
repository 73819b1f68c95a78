----------------------------- MODULE DistSession -----------------------------
(***************************************************************************)
(* A dKaMinPar object as its users - one per PE - see it.  The graph is    *)
(* split into consecutive ranges of vertices (dist), one per PE; every PE  *)
(* hands over its range and gets back the blocks of its own vertices and   *)
(* the cut of the whole graph.                                             *)
(***************************************************************************)
EXTENDS Graphs

VARIABLES
  hasObj, pes,   \* an object exists; the number of PEs
  hasGraph, graph, dist,
  last           \* the last result [p, cut, k]
vars == <<hasObj, pes, hasGraph, graph, dist, last>>

NoGraph == [n |-> 0, s |-> <<>>, t |-> <<>>, vw |-> <<>>, ew |-> <<>>]
NoResult == [p |-> <<>>, cut |-> 0, k |-> 0]

Init == /\ hasObj = FALSE /\ pes = 0 /\ hasGraph = FALSE /\ graph = NoGraph /\ dist = <<>>
        /\ last = NoResult

\* dist is a monotone sequence of pes+1 boundaries that covers all vertices
IsDistribution(d, n) == /\ Len(d) = pes + 1 /\ d[1] = 0 /\ d[pes + 1] = n
                        /\ \A i \in 1 .. pes : d[i] <= d[i + 1]

\* the largest weight a block may have: the bound is relaxed for weighted graphs
MaxBlockWeight(g, k, eps) ==
  LET perfect == CeilDiv(TotalVW(g), k)
      strict == ((1000 + eps) * perfect) \div 1000
  IN IF TotalVW(g) = g.n THEN strict ELSE Max2(strict, perfect + MaxVW(g))

Balanced(g, k, eps, p) ==
  \E bw \in {BlockWeights(g, p, k)} : \E L \in {MaxBlockWeight(g, k, eps)} :
     \A b \in 1 .. k : bw[b] <= L

New(size) == /\ hasObj' = TRUE /\ pes' = size /\ hasGraph' = FALSE /\ graph' = NoGraph /\ dist' = <<>>
             /\ last' = NoResult

Import(g, d) == /\ hasObj
                /\ Holds(WellFormed(g)) /\ Holds(IsDistribution(d, g.n))
                /\ hasGraph' = TRUE /\ graph' = g /\ dist' = d
                /\ UNCHANGED <<hasObj, pes, last>>

\* p: the blocks returned by PE 0, PE 1, ... one after the other; cuts: the number returned by each PE
Partition(k, p, cuts) ==
  /\ hasGraph /\ k >= 1
  /\ Len(cuts) = pes
  /\ Holds(ValidAssignment(graph.n, p, k))
  /\ \E c \in {Cut2(graph, p)} : \A i \in 1 .. pes : 2 * cuts[i] = c
  /\ last' = [p |-> p, cut |-> cuts[1], k |-> k]
  /\ UNCHANGED <<hasObj, pes, hasGraph, graph, dist>>

\* Graphs without vertex weights are always balanced, unless initial partitioning was asked to be random.
\* For weighted graphs, it is a matter of luck (bin packing) - the partitioner only tries to.
PartitionBalanced(k, eps, p, cuts) ==
  /\ Partition(k, p, cuts)
  /\ Holds(TotalVW(graph) = graph.n => Balanced(graph, k, eps, p))
=============================================================================
