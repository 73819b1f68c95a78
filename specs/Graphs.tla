------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Weighted undirected graphs as KaMinPar's interface sees them.           *)
(*                                                                         *)
(* A graph is a record [n, s, t, vw, ew]:                                  *)
(*   n   number of vertices (vertex ids are 0 .. n-1)                      *)
(*   s,t sequences of equal length: directed edge i goes s[i] -> t[i];     *)
(*       every undirected edge appears in both directions                  *)
(*   vw  vertex weights (<<>>: all 1), ew  edge weights (<<>>: all 1)      *)
(* Assignments of vertices (partitions, clusterings, permutations) are     *)
(* sequences of length n; vertex u is at position u+1.                     *)
(***************************************************************************)
EXTENDS Integers, TLC, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

\* Evaluates b as a value, not as an action (in an action TLC would branch into every conjunct of a
\* quantifier recursively).
Holds(b) == b = TRUE

At(f, i) == f[i + 1]                       \* 0-based access
N(g) == g.n
M(g) == Len(g.t)
Vertices(g) == 0 .. (g.n - 1)
VW(g, u) == IF g.vw = <<>> THEN 1 ELSE g.vw[u + 1]
EWt(g, i) == IF g.ew = <<>> THEN 1 ELSE g.ew[i]

SumSeq(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
SumRange(lo, hi, F(_)) == FoldLeft(LAMBDA a, i : a + F(i), 0, [j \in 1 .. (hi - lo + 1) |-> lo + j - 1])
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Max0(S) == IF S = {} THEN 0 ELSE MaxOf(S)
CeilDiv(a, b) == (a + b - 1) \div b
Mod(a, b) == a % b

TotalVW(g) == IF g.vw = <<>> THEN g.n ELSE SumSeq(g.vw)
TotalEW(g) == IF g.ew = <<>> THEN M(g) ELSE SumSeq(g.ew)
MaxVW(g) == IF g.vw = <<>> THEN 1 ELSE IF g.n = 0 THEN 0 ELSE MaxOf(ToSet(g.vw))

\* well-formed: sources/targets are vertices, weights have the right length
WellFormed(g) == /\ Len(g.s) = Len(g.t)
                 /\ (g.vw = <<>> \/ Len(g.vw) = g.n)
                 /\ (g.ew = <<>> \/ Len(g.ew) = Len(g.t))
                 /\ \A i \in 1 .. M(g) : g.s[i] \in Vertices(g) /\ g.t[i] \in Vertices(g)

\* p assigns every vertex a number below k
ValidAssignment(n, p, k) == Len(p) = n /\ \A i \in 1 .. n : p[i] >= 0 /\ p[i] < k

\* twice the edge cut
Cut2(g, p) == SumRange(1, M(g), LAMBDA i : IF p[g.s[i] + 1] # p[g.t[i] + 1] THEN EWt(g, i) ELSE 0)
Cut(g, p) == Cut2(g, p) \div 2

\* (an explicit tuple: EXCEPT on a lazily evaluated function would pile up)
Zeros(k) == <<>> \o [b \in 1 .. k |-> 0]

\* sequence of block weights, block b at position b+1
BlockWeights(g, p, k) ==
  FoldLeft(LAMBDA bw, i : [bw EXCEPT ![p[i] + 1] = @ + VW(g, i - 1)],
           Zeros(k), [i \in 1 .. g.n |-> i])

\* multiset of weighted edges: function from vertex pairs to the sequence of weights
EdgeWeightBetween(g, u, v) ==
  SumRange(1, M(g), LAMBDA i : IF g.s[i] = u /\ g.t[i] = v THEN EWt(g, i) ELSE 0)

Neighbors(g, u) == { g.t[i] : i \in { j \in 1 .. M(g) : g.s[j] = u } }
=============================================================================
