---------------------------- MODULE BipartTrace ----------------------------
(***************************************************************************)
(* Dividing blocks, as recorded from the implementation: the arithmetic of *)
(* block numbers and limits (SplitTree), extracting blocks as graphs,      *)
(* extending partitions, and everything that computes bipartitions.        *)
(***************************************************************************)
EXTENDS Quotient, SplitTree, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g,
          todo,   \* graphs waiting to be cut in two, the last is next (SubgraphMemory)
          lv,     \* levels of the sequential hierarchy, finest first
          last    \* the last bipartition: [p, cut, over] or what a projection has to preserve
vars == <<l, g, todo, lv, last>>
Nothing == [p |-> <<>>, cut |-> 0, over |-> 0]
TInit == l = 1 /\ g = [n |-> 0] /\ todo = <<>> /\ lv = <<>> /\ last = Nothing

\* ------------------------------------------------------------- arithmetic
TreeOk(r) ==
  LET q == Labels(r.K, r.ck)  s == Starts(q) IN
    /\ r.fk = q
    /\ r.fs = SubSeq(s, 1, r.ck)
    /\ r.fi = SubSeq(s, 2, r.ck + 1)
LeavesOk(r) == r.fk = Labels(r.K, r.K)
SumOf(q, from, to) == SumRange(from, to, LAMBDA i : q[i])       \* 1-based, inclusive
KwayOk(r) ==
  LET s == Starts(Labels(r.K, r.ck)) IN
    /\ r.k = r.ck /\ Len(r.got) = r.ck
    /\ \A b \in 1 .. r.ck : r.got[b] = SumOf(r.lim, s[b] + 1, s[b + 1])
\* limits of a bipartition: those of all blocks that come out of each side, relaxed by the heaviest vertex
Relaxed(w, both, total, maxw) == Max2(w, CeilDiv(w * total, both) + maxw)
Close(x, y) == x - y \in {-1, 0, 1}                             \* computed with floating point numbers
TwowayOk(r) ==
  LET q == Labels(r.K, r.ck)  s == Starts(q)
      half == s[r.b + 1] + Upper(q[r.b + 1])
      w0 == SumOf(r.lim, s[r.b + 1] + 1, half)
      w1 == SumOf(r.lim, half + 1, s[r.b + 2])
  IN /\ Close(r.m0, Relaxed(w0, w0 + w1, r.total, r.maxw))
     /\ Close(r.m1, Relaxed(w1, w0 + w1, r.total, r.maxw))

\* ------------------------------------------------------------- extracting blocks
Edges(a) == { <<a.s[i], a.t[i], EWt(a, i)>> : i \in 1 .. M(a) }
SameGraph(a, b) == a.n = b.n /\ M(a) = M(b) /\ Edges(a) = Edges(b) /\ \A u \in Vertices(a) : VW(a, u) = VW(b, u)
\* sub is the graph induced by block b of partition p of graph a
IsInduced(a, p, b, map, sub) ==
  LET V == { u \in Vertices(a) : p[u + 1] = b }
      E == { i \in 1 .. M(a) : p[a.s[i] + 1] = b /\ p[a.t[i] + 1] = b }
  IN /\ sub.n = Cardinality(V)
     /\ { map[u + 1] : u \in V } = 0 .. sub.n - 1
     /\ \A u \in V : VW(sub, map[u + 1]) = VW(a, u)
     /\ M(sub) = Cardinality(E)
     /\ Edges(sub) = { <<map[a.s[i] + 1], map[a.t[i] + 1], EWt(a, i)>> : i \in E }
ExtractOk(r) == /\ Len(r.subs) = r.k
                /\ \A b \in 1 .. r.k : IsInduced(g, r.p, b - 1, r.map, r.subs[b])
Region(at, n) == at .. at + n - 1
HalvesOk(r) ==
  /\ SameGraph(r.g, IF todo = <<>> THEN g ELSE todo[Len(todo)])        \* its memory was left alone
  /\ Len(r.subs) = 2
  /\ \A b \in 1 .. 2 : IsInduced(r.g, r.p, b - 1, r.map, r.subs[b])
  \* both halves lie in the memory of the whole, apart from each other, with room for all their parts
  /\ LET A == Region(r.npos[1], r.subs[1].n + r.fk0)  B == Region(r.npos[2], r.subs[2].n + r.fk1)
         W == Region(r.pos, r.g.n + r.fk0 + r.fk1)
         C == Region(r.mpos[1], M(r.subs[1]))  D == Region(r.mpos[2], M(r.subs[2]))
     IN A \subseteq W /\ B \subseteq W /\ A \cap B = {} /\ C \cup D \subseteq Region(r.epos, M(r.g)) /\ C \cap D = {}
Rest(r) == LET q == IF todo = <<>> THEN <<>> ELSE SubSeq(todo, 1, Len(todo) - 1) IN
           q \o (IF r.fk1 > 1 THEN <<r.subs[2]>> ELSE <<>>) \o (IF r.fk0 > 1 THEN <<r.subs[1]>> ELSE <<>>)

\* ------------------------------------------------------------- extending partitions
\* p1 divides the blocks of p in the way the tree of blocks prescribes
Divides(r) ==
  LET s == Starts(Parts(r.K, r.k, r.kp)) IN
    /\ r.k1 = r.kp
    /\ ValidAssignment(g.n, r.p1, r.kp)
    /\ \A i \in 1 .. g.n : s[r.p[i] + 1] <= r.p1[i] /\ r.p1[i] < s[r.p[i] + 2]
    /\ r.bw = BlockWeights(g, r.p1, r.kp)
CopyOk(r) ==
  LET s == Starts(Parts(r.K, r.k, r.kp)) IN
    /\ Divides(r)
    /\ \A i \in 1 .. g.n : r.p1[i] = s[r.p[i] + 1] + r.parts[r.p[i] + 1][r.map[i] + 1]

\* ------------------------------------------------------------- bipartitions
Exact(r) == /\ r.k = 2 /\ ValidAssignment(g.n, r.p, 2)
            /\ r.bw = BlockWeights(g, r.p, 2)
            /\ r.cut = Cut(g, r.p)
Over(r) == Max2(0, r.bw[1] - r.lim[1]) + Max2(0, r.bw[2] - r.lim[2])
\* breadth-first search overloads a block only if the other one has no room either
BfsOk(r) == \A b \in 1 .. 2 : r.bw[b] > r.lim[b] => r.bw[3 - b] + MaxVW(g) > r.lim[3 - b]
\* the grown block stops when it has reached its share
GggOk(r) == /\ r.bw[2] >= Min2(r.perf[2], TotalVW(g))
            /\ r.bw[2] <= Max2(r.perf[2] - 1, 0) + MaxVW(g)
RandomOk(r) == \A b \in 1 .. 2 : r.bw[b] <= r.perf[b] + MaxVW(g) + Max2(0, CeilDiv(TotalVW(g) - r.perf[1] - r.perf[2], 2))
Unit == \A u \in Vertices(g) : VW(g, u) = 1
FlatOk(r) ==
  /\ Exact(r)
  /\ r.alg = "bfs" => BfsOk(r)
  /\ r.alg = "ggg" => GggOk(r)
  /\ r.alg = "random" => RandomOk(r)
  \* the pool takes a feasible partition if it has seen one: breadth-first search finds one for unit weights
  /\ (r.alg = "pool" /\ r.bfs /\ Unit /\ r.lim[1] + r.lim[2] >= g.n) => Over(r) = 0
FmOk(r) ==
  /\ Exact(r)
  /\ Over(r) <= last.over /\ r.cut <= last.cut
  /\ r.off => r.p = last.p
  /\ (~r.off /\ r.iters > 1) => (r.ret <=> r.cut < last.cut)

\* the uncompressed copy of a graph
CsrOk(r) == /\ SameGraph(r.g, g)
            /\ r.maxw = MaxVW(g) /\ r.tnw = TotalVW(g) /\ r.tew = TotalEW(g) /\ r.sorted
            /\ r.maxdeg = Max0({ Cardinality({ i \in 1 .. M(g) : g.s[i] = u }) : u \in Vertices(g) })

\* ------------------------------------------------------------- the sequential hierarchy
Top == lv[Len(lv)]
CoarseOk(r) == /\ r.g.n < Top.n
               /\ r.m = M(r.g) /\ r.tnw = TotalVW(r.g) /\ r.tew = TotalEW(r.g)
               /\ r.tnw = TotalVW(Top) /\ r.tew <= TotalEW(Top)
               /\ WellFormed(r.g)
Members(p, b) == Cardinality({ i \in 1 .. Len(p) : p[i] = b })
ProjectedOk(r, coarsest) ==
  LET f == lv[Len(lv) - 1] IN
    /\ ValidAssignment(f.n, r.p, r.k)
    /\ r.bw = last.bw /\ r.bw = BlockWeights(f, r.p, r.k)
    /\ r.cut = last.cut /\ r.cut = Cut(f, r.p)
    /\ r.ident => /\ IsQuotient(f, coarsest, r.p, r.ord)
                  /\ \A b \in 0 .. coarsest.n - 1 : VW(coarsest, b) > r.maxw => Members(r.p, b) = 1

\* -------------------------------------------------------------
Rd == Trace[l]
Is(e) == l <= Len(Trace) /\ Rd.ev = e
Go == l' = l + 1
Pure == UNCHANGED <<g, todo, lv, last>>
NewGraph == Is("graph") /\ Go /\ g' = Rd.g /\ todo' = <<>> /\ lv' = <<Rd.g>> /\ last' = Nothing
Arith == /\ \/ Is("tree") /\ Holds(TreeOk(Rd))
            \/ Is("leaves") /\ Holds(LeavesOk(Rd))
            \/ Is("kway") /\ Holds(KwayOk(Rd))
            \/ Is("twoway") /\ Holds(TwowayOk(Rd))
         /\ Go /\ Pure
Extract == Is("extract") /\ Holds(ExtractOk(Rd)) /\ Go /\ Pure
Halves == Is("halves") /\ Holds(HalvesOk(Rd)) /\ Go /\ todo' = Rest(Rd) /\ UNCHANGED <<g, lv, last>>
Extend == /\ \/ Is("copy") /\ Holds(CopyOk(Rd))
             \/ Is("extend") /\ Holds(Divides(Rd))
          /\ Go /\ Pure
Bipartition == /\ \/ Is("flat") /\ Holds(FlatOk(Rd))
                  \/ Is("fm") /\ Holds(FmOk(Rd))
               /\ Go /\ last' = [p |-> Rd.p, cut |-> Rd.cut, over |-> Over(Rd)] /\ UNCHANGED <<g, todo, lv>>
Copied == Is("csr") /\ Holds(CsrOk(Rd)) /\ Go /\ Pure
Multi == Is("ml") /\ Holds(Exact(Rd)) /\ Go /\ Pure
Coarsen == Is("coarse") /\ Holds(CoarseOk(Rd)) /\ Go /\ lv' = Append(lv, Rd.g) /\ UNCHANGED <<g, todo, last>>
Bottom == Is("bottom") /\ Rd.cut = Cut(Top, Rd.p) /\ Rd.bw = BlockWeights(Top, Rd.p, Rd.k) /\ Go
          /\ last' = [bw |-> Rd.bw, cut |-> Rd.cut, c |-> Top] /\ UNCHANGED <<g, todo, lv>>
Up == Is("up") /\ Len(lv) > 1 /\ Holds(ProjectedOk(Rd, last.c)) /\ Go
      /\ lv' = SubSeq(lv, 1, Len(lv) - 1) /\ UNCHANGED <<g, todo, last>>
TNext == NewGraph \/ Arith \/ Extract \/ Halves \/ Extend \/ Bipartition \/ Copied \/ Multi \/ Coarsen \/ Bottom \/ Up
=============================================================================
