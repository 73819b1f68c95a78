----------------------------- MODULE ToolsTrace -----------------------------
(***************************************************************************)
(* What the executables promise about the graph they are given: the        *)
(* partitioners (shared memory and distributed), the tools for graphs and  *)
(* partitions, and the configuration files. The state is the graph that    *)
(* was written to the input file; every run is a transition whose printed  *)
(* and written output is a function of (or constrained by) that graph.     *)
(***************************************************************************)
EXTENDS GraphFiles, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g, H                        \* g: input graph, H: the same as a plain graph
vars == <<l, g, H>>
NoGraph == [n |-> 0, s |-> <<>>, t |-> <<>>, vw |-> <<>>, ew |-> <<>>]
TInit == l = 1 /\ g = NoGraph /\ H = Plain(NoGraph)
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.ev = e /\ l' = l + 1

Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* x / y is a / by (a is rounded)
Rounded(a, by, x, y) == Abs(a * y - by * x) <= y
\* the imbalance (in 1/10000) of blocks of weights bw
ImbalanceOK(imb, bw, total) ==
  \E perfect \in {CeilDiv(total, Len(bw))} : Rounded(imb, 10000, Max2(0, MaxOf(ToSet(bw)) - perfect), perfect)
BlockSizes(p, k) == FoldLeft(LAMBDA z, b : [z EXCEPT ![b + 1] = @ + 1], Zeros(k), p)
OutputFile(r) == IF r.words = <<>> THEN MetisGraph(r.lines) ELSE ParhipGraph(r.words)
OutputFileOK(r) == IF r.words = <<>> THEN r.lines # <<>> /\ r.lines # <<<<-7>>>> /\ MetisHeaderOK(r.lines) ELSE Len(r.words) = ParhipLength(r.words)

TGraph == Is("graph") /\ g' = R.g /\ H' = Plain(R.g)

(* ---- partitioning ---- *)
Accepted(r) ==
  /\ ~r.unpacked
  /\ CASE r.kind = "eps" -> TRUE
       [] r.kind = "abs" -> SumSeq(r.bounds) > TotalVW(g)
       [] r.kind = "fac" -> SumSeq(r.bounds) > 1000
UniformBound(k, eps) == ((1000 + eps) * CeilDiv(TotalVW(g), k)) \div 1000
Within(r, bw) ==
  CASE r.kind = "eps" -> \A b \in 1 .. r.k : bw[b] <= UniformBound(r.k, r.eps)
    [] r.kind = "abs" -> \A b \in 1 .. r.k : bw[b] <= r.bounds[b]
    [] r.kind = "fac" -> \A b \in 1 .. r.k : bw[b] <= (r.bounds[b] * TotalVW(g)) \div 1000
\* the file describes a partition of the input graph, and the summary is about this partition
PartitionOK(r) ==
  /\ r.wrote
  /\ ValidAssignment(g.n, r.p, r.k)
  /\ r.pk = r.k
  /\ r.cut = Cut(IF r.noew THEN [g EXCEPT !.ew = <<>>] ELSE g, r.p)
  /\ \E bw \in {BlockWeights(g, r.p, r.k)} :
       /\ r.bw = bw
       /\ ImbalanceOK(r.imb, bw, TotalVW(g))
       /\ r.feas \in {<<"yes">>, <<"no">>}
       /\ Within(r, bw) => r.feas = <<"yes">>
       /\ (r.feas = <<"yes">> /\ g.vw = <<>> /\ r.kind = "eps") => Within(r, bw)
  /\ r.sizes = BlockSizes(r.p, r.k)
  /\ r.lib # <<>> => r.lib = r.p                       \* exactly what the library computes
TPart == Is("part") /\ UNCHANGED <<g, H>>
         /\ IF Holds(Accepted(R)) THEN R.rc = 0 /\ Holds(PartitionOK(R)) ELSE R.rc # 0 /\ ~R.wrote

\* --validate rejects exactly the graphs that are not undirected
TValidated == Is("validated") /\ UNCHANGED <<g, H>>
              /\ IF Holds(Undirected(H)) THEN R.rc = 0 /\ R.wrote ELSE R.rc # 0 /\ ~R.wrote

\* the vertices of every block become consecutive, and the file is the input graph after renaming
Rearranged(r) ==
  /\ IsPermutation(r.map, g.n)
  /\ \E ip \in {<<>> \o [v \in 1 .. g.n |-> r.p[CHOOSE u \in 1 .. g.n : r.map[u] = v - 1]]} : \A v \in 1 .. g.n - 1 : ip[v] <= ip[v + 1]
  /\ OutputFileOK(r)
  /\ OutputFile(r) = Renamed(H, r.map)
TRearranged == Is("rearranged") /\ UNCHANGED <<g, H>> /\ Holds(Rearranged(R))

\* distributed partitioning; of several repetitions, the best is written
DistOK(r) ==
  /\ r.rc = 0
  /\ ValidAssignment(g.n, r.p, r.k)
  /\ Len(r.cuts) = r.reps /\ Len(r.imbs) = r.reps
  /\ \E cut \in {Cut(g, r.p)} :
       /\ cut = MinOf(ToSet(r.cuts))
       /\ r.best # -1 => r.best = cut
       /\ \E bw \in {BlockWeights(g, r.p, r.k)} : \E i \in 1 .. r.reps :
            /\ r.cuts[i] = cut
            /\ ImbalanceOK(r.imbs[i], bw, TotalVW(g))
            /\ (\A b \in 1 .. r.k : bw[b] <= UniformBound(r.k, r.eps)) => r.feas[i] = "yes"
            /\ (r.feas[i] = "yes" /\ g.vw = <<>>) => \A b \in 1 .. r.k : bw[b] <= UniformBound(r.k, r.eps)
TDist == Is("dpart") /\ UNCHANGED <<g, H>> /\ Holds(DistOK(R))

(* ---- tools ---- *)
\* a file with block sizes stands for consecutive blocks
FromSizes(z) == Concat(Len(z), LAMBDA b : [i \in 1 .. z[b] |-> b - 1])
PropsOfPartition(r) ==
  \E p \in {IF r.p = <<>> THEN FromSizes(r.sizes) ELSE r.p} :
  \E k \in {1 + MaxOf(ToSet(p))} :
    /\ r.pk = k
    /\ r.cut = Cut(g, p)
    /\ ImbalanceOK(r.imb, BlockWeights(g, p, k), TotalVW(g))
TPProps == Is("pprops") /\ R.rc = 0 /\ UNCHANGED <<g, H>> /\ Holds(PropsOfPartition(R))

Degrees == <<>> \o [u \in 1 .. g.n |-> Degree(H, u - 1)]
\* unit weights may be dropped
TotalOK(x, count, w) == IF count # 0 /\ (w = <<>> \/ SumSeq(w) # count) THEN x = (IF w = <<>> THEN -1 ELSE SumSeq(w)) ELSE x \in {-1, count}
PropsOfGraph(r) ==
  \E d \in {Degrees} :
    /\ r.n = g.n
    /\ r.m = M(g)
    /\ TotalOK(r.tvw, g.n, g.vw)
    /\ TotalOK(r.tew, M(g), g.ew)
    /\ r.maxdeg = MaxOf(ToSet(d))
    /\ Rounded(r.avg, 1000, M(g), g.n)
    /\ r.iso = Cardinality({ u \in 1 .. g.n : d[u] = 0 })
TProps == Is("props") /\ R.rc = 0 /\ UNCHANGED <<g, H>> /\ Holds(PropsOfGraph(R))

\* smallest vertex of the component of every vertex
Labels ==
  LET Nb == <<>> \o [u \in 1 .. g.n |-> { e[2] : e \in { f \in H.E : f[1] = u - 1 } }] IN
  FoldLeft(LAMBDA lab, i : <<>> \o [u \in 1 .. g.n |-> MinOf({lab[u]} \cup { lab[v + 1] : v \in Nb[u] })],
           <<>> \o [u \in 1 .. g.n |-> u - 1], [i \in 1 .. g.n |-> i])
\* the subgraph induced by the vertices S, which keep their order
Induced(S) ==
  LET rank == [v \in S |-> Cardinality({ u \in S : u < v })]
      old == [i \in 0 .. Cardinality(S) - 1 |-> CHOOSE v \in S : rank[v] = i]
      E == { e \in H.E : e[1] \in S /\ e[2] \in S } IN
  [n |-> Cardinality(S), vw |-> <<>> \o [i \in 1 .. Cardinality(S) |-> H.vw[old[i - 1] + 1]], m |-> Cardinality(E),
   E |-> { <<rank[e[1]], rank[e[2]], e[3]>> : e \in E }]
ComponentsOK(r) ==
  \E lab \in {Labels} :
  \E C \in {{ { u - 1 : u \in { x \in 1 .. g.n : lab[x] = c } } : c \in ToSet(lab) }} :
  \E big \in {MaxOf({ Cardinality(S) : S \in C })} :
    /\ r.num = Cardinality(C)
    /\ r.largest = big
    /\ r.single = Cardinality({ S \in C : Cardinality(S) = 1 })
    /\ Len(r.hist) = (CHOOSE b \in 0 .. 30 : 2 ^ b <= big /\ big < 2 ^ (b + 1))
    /\ \A i \in 1 .. Len(r.hist) : r.hist[i] = <<2 ^ i, 2 ^ (i + 1), Cardinality({ S \in C : 2 ^ i <= Cardinality(S) /\ Cardinality(S) < 2 ^ (i + 1) })>>
    /\ OutputFileOK(r)
    /\ \E F \in {OutputFile(r)} : \E S \in C : Cardinality(S) = big /\ F = Induced(S)
TComponents == Is("components") /\ R.rc = 0 /\ UNCHANGED <<g, H>> /\ Holds(ComponentsOK(R))

WeightAllowed(kind, b, w) ==
  CASE kind = "uniform" -> w \in b[1] .. b[2]
    [] kind = "alternating" -> w \in b[1] .. b[2] \/ w \in b[3] .. b[4]
    [] kind = "exponential" -> w >= 1
WeightsOK(r) ==
  /\ OutputFileOK(r)
  /\ \E F \in {OutputFile(r)} :
       /\ F.n = H.n /\ F.m = H.m /\ F.vw = H.vw
       /\ Undirected(F)
       /\ { <<e[1], e[2]>> : e \in F.E } = { <<e[1], e[2]>> : e \in H.E }
       /\ \A e \in F.E : WeightAllowed(r.kind, r.b, e[3])
  /\ r.again = r.lines \o <<r.words>>                   \* reproducible
TWeights == Is("weights") /\ R.rc = 0 /\ UNCHANGED <<g, H>> /\ Holds(WeightsOK(R))

\* (the vertices have different weights: they identify the vertices in the file)
RearrangeOK(r) ==
  /\ OutputFileOK(r)
  /\ \E F \in {OutputFile(r)} :
       /\ F.n = H.n
       /\ ToSet(F.vw) = ToSet(H.vw)
       /\ \E p \in {<<>> \o [u \in 1 .. H.n |-> (CHOOSE v \in 1 .. H.n : F.vw[v] = H.vw[u]) - 1]} :
            /\ F = Renamed(H, p)
            /\ IF r.natural THEN \A u \in 1 .. H.n : p[u] = u - 1 ELSE Bucketed(F)
TRearrange == Is("rearrange") /\ R.rc = 0 /\ UNCHANGED <<g, H>> /\ Holds(RearrangeOK(R))

TRan == Is("ran") /\ R.rc = 0 /\ UNCHANGED <<g, H>>
\* a compressed file is not read if compression is disabled
TPacked == Is("packed") /\ R.rc # 0 /\ UNCHANGED <<g, H>>

(* ---- configurations: options with their values ---- *)
Given(r, name) == IF \E i \in 1 .. Len(r.given) : r.given[i][1] = name
                  THEN { r.given[i][2] : i \in { j \in 1 .. Len(r.given) : r.given[j][1] = name } } ELSE {}
ConfigOK(r) ==
  /\ Len(r.base) > 10
  \* the dumped configuration is the preset, except for the given options
  /\ { q \in ToSet(r.dump) : Given(r, q[1]) = {} } = { q \in ToSet(r.base) : Given(r, q[1]) = {} }
  /\ \A i \in 1 .. Len(r.given) : r.given[i] \in ToSet(r.dump)
  /\ Len(r.dump) = Cardinality({ q[1] : q \in ToSet(r.dump) })
  \* reading it back restores it
  /\ ToSet(r.again) = ToSet(r.dump)
TConfig == Is("config") /\ UNCHANGED <<g, H>> /\ Holds(ConfigOK(R))

TNext == TGraph \/ TPart \/ TValidated \/ TRearranged \/ TDist \/ TPProps \/ TProps \/ TComponents \/ TWeights \/ TRearrange \/ TRan \/ TPacked \/ TConfig
=============================================================================
