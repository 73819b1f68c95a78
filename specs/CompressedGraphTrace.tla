----------------------- MODULE CompressedGraphTrace -----------------------
(***************************************************************************)
(* A compressed graph represents the graph it was built from: every way of *)
(* reading it (neighborhoods with and without weights, limited and stopped *)
(* iteration, parallel iteration, degrees, weights, totals) agrees with    *)
(* the uncompressed graph, also while trailing isolated vertices are       *)
(* hidden and after they have been brought back.                           *)
(***************************************************************************)
EXTENDS Graphs, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next record
          g,      \* the graph
          hidden, \* number of hidden isolated vertices
          nb      \* neighborhoods: vertex u at position u+1: set of <<target, weight>>
vars == <<l, g, hidden, nb>>

Deg(h, u) == h.x[u + 2] - h.x[u + 1]
Sum(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
N0 == g.n - hidden
NoGraph == [n |-> 0, x |-> <<0>>, t |-> <<>>, w |-> <<>>, vw |-> <<>>, nodew |-> FALSE, edgew |-> FALSE]

Pairs(q) == { <<q[2 * i - 1], q[2 * i]>> : i \in 1 .. (Len(q) \div 2) }
Targets(u) == { p[1] : p \in nb[u + 1] }

TInit == l = 1 /\ g = NoGraph /\ hidden = 0 /\ nb = <<>>

IsView(r) ==
  /\ r.n = N0 /\ r.m = Len(g.t)
  /\ r.tnw = (IF r.n = 0 THEN 0 ELSE Sum(SubSeq(g.vw, 1, N0)))
  /\ r.tew = Sum(g.w)
  /\ r.maxdeg = Max0({ Deg(g, u) : u \in 0 .. N0 - 1 })
  /\ Len(r.deg) = N0 /\ Len(r.vw) = N0
  /\ \A u \in 0 .. N0 - 1 : r.deg[u + 1] = Deg(g, u) /\ r.vw[u + 1] = g.vw[u + 1]
  /\ (r.how # "cut" => r.maxvw = (IF g.nodew THEN Max0({ g.vw[u + 1] : u \in 0 .. N0 - 1 }) ELSE 1))
  /\ (r.nodew => g.nodew) /\ (r.edgew => g.edgew)

\* complete neighborhoods (each neighbor exactly once, in any order)
IsAdj(r) == Len(r.adj) = N0 /\ \A u \in 0 .. N0 - 1 :
               Len(r.adj[u + 1]) = 2 * Deg(g, u) /\ Pairs(r.adj[u + 1]) = nb[u + 1]
IsTargets(r) == Len(r.adj) = N0 /\ \A u \in 0 .. N0 - 1 :
               Len(r.adj[u + 1]) = Deg(g, u) /\ ToSet(r.adj[u + 1]) = Targets(u)
IsLimited(r) == Len(r.adj) = N0 /\ \A u \in 0 .. N0 - 1 :
               LET k == Min2(Deg(g, u), r.lim[u + 1]) IN
                 /\ Len(r.adj[u + 1]) = 2 * k
                 /\ Cardinality(Pairs(r.adj[u + 1])) = k
                 /\ Pairs(r.adj[u + 1]) \subseteq nb[u + 1]
\* concurrently finished chunks are placed in the order of their tickets
IsTickets(r) == Len(r.got) = Len(r.delta) /\ \A i \in 1 .. Len(r.got) :
               r.got[i] = (IF i = 1 THEN 0 ELSE r.got[i - 1] + r.delta[i - 1])

Step(r) ==
  CASE r.ev = "graph" -> /\ g' = r /\ hidden' = 0
                         /\ nb' = <<>> \o [u \in 1 .. r.n |-> { <<r.t[i], r.w[i]>> : i \in (r.x[u] + 1) .. r.x[u + 1] }]
    [] r.ev = "cut" -> /\ Holds(\A u \in (g.n - r.take) .. (g.n - 1) : Deg(g, u) = 0)
                       /\ hidden' = r.take /\ UNCHANGED <<g, nb>>
    [] r.ev = "uncut" -> r.back = hidden /\ hidden' = 0 /\ UNCHANGED <<g, nb>>
    [] r.ev = "view" -> Holds(IsView(r)) /\ UNCHANGED <<g, hidden, nb>>
    [] r.ev \in {"adj", "padj"} -> Holds(IsAdj(r)) /\ UNCHANGED <<g, hidden, nb>>
    [] r.ev = "tgt" -> Holds(IsTargets(r)) /\ UNCHANGED <<g, hidden, nb>>
    [] r.ev = "lim" -> Holds(IsLimited(r)) /\ UNCHANGED <<g, hidden, nb>>
    [] r.ev = "tickets" -> Holds(IsTickets(r)) /\ UNCHANGED <<g, hidden, nb>>

TNext == l <= Len(Trace) /\ l' = l + 1 /\ \E r \in {Trace[l]} : Step(r)
============================================================================
