-------------------------- MODULE CoarseningTrace --------------------------
(***************************************************************************)
(* Rearranging, clustering, contracting and projecting graphs.             *)
(*                                                                         *)
(*  - a rearranged graph is the old one with renamed vertices              *)
(*  - a clustering respects the weight limit and the communities           *)
(*  - the contracted graph is the quotient of the graph by the clustering  *)
(*  - projecting a partition keeps every vertex in the block of its        *)
(*    cluster, hence the cut and all block weights                         *)
(*  - levels of a hierarchy form a stack (Multilevel.tla)                  *)
(* Records carry a witness `ord` (edges sorted by the images of their ends)*)
(* which lets the quotient be decided in one pass.                         *)
(***************************************************************************)
EXTENDS Quotient, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          st,   \* stack of graphs, the last is the current one
          comm, \* communities of every level of the hierarchy, <<>> if none
          part  \* partition of the current graph (after the coarsest level)
vars == <<l, st, comm, part>>
Top == st[Len(st)]
Finest == st[1]
TInit == l = 1 /\ st = <<>> /\ comm = <<>> /\ part = <<>>

\* reported totals of a graph
Totals(r) == r.m = M(r.g) /\ r.tnw = TotalVW(r.g) /\ r.tew = TotalEW(r.g)

Degrees(g) == FoldLeft(LAMBDA d, i : [d EXCEPT ![g.s[i] + 1] = @ + 1], Zeros(g.n), [i \in 1 .. M(g) |-> i])
Bucket(d) == IF d = 0 THEN 0 ELSE 1 + CHOOSE b \in 0 .. 30 : 2 ^ b <= d /\ d \div 2 < 2 ^ b
Bk(f, b) == IF b + 1 <= Len(f) THEN f[b + 1] ELSE -1
BucketCounts(r, deg) ==
  LET used == Len(r.bsize)
      cnt == FoldLeft(LAMBDA q, u : IF Bucket(deg[u]) < used THEN [q EXCEPT ![Bucket(deg[u]) + 1] = @ + 1] ELSE q,
                      Zeros(used), [u \in 1 .. Len(deg) |-> u])
  IN /\ \A u \in 1 .. Len(deg) : Bucket(deg[u]) < used
     /\ r.bsize = cnt
     /\ \A b \in 1 .. used : r.bfirst[b] + r.bsize[b] = r.binv[b]
     /\ \A b \in 1 .. used - 1 : r.bfirst[b + 1] = r.binv[b]
\* without isolated vertices the buckets partition the vertices by degree
BucketsMatch(r, deg) ==
  /\ BucketCounts(r, deg)
  /\ \A b \in 1 .. Len(r.bsize) : \A u \in r.bfirst[b] .. r.binv[b] - 1 : Bucket(deg[u + 1]) = b - 1

IsDegreeOrder(r) ==
  LET deg == Degrees(r.g) IN
    /\ r.sorted /\ (r.permuted \/ Top.n = 0)
    /\ r.g.n = Top.n /\ IsQuotient(Top, r.g, r.map, r.ord)
    /\ r.maxdeg = Max0(ToSet(deg))
    /\ BucketCounts(r, deg)
    \* ordered by degree bucket, isolated vertices last
    /\ \A u \in 1 .. Len(deg) - 1 : deg[u + 1] = 0 \/ (deg[u] # 0 /\ Bucket(deg[u]) <= Bucket(deg[u + 1]))

IsCut(r) ==
  LET deg == Degrees(r.g) IN
    /\ r.g.n = Top.n - r.iso
    /\ r.iso = Cardinality({ u \in 1 .. Top.n : Degrees(Top)[u] = 0 })
    /\ r.g.s = Top.s /\ r.g.t = Top.t /\ r.g.ew = Top.ew
    /\ r.g.vw = SubSeq(Top.vw, 1, r.g.n)
    /\ Totals(r)
    /\ BucketsMatch(r, deg)

\* isolated vertices are added to blocks in order; only the last block may be overfilled
IsUncut(r) ==
  /\ r.n = Top.n /\ r.back = Top.n - Len(r.core) /\ r.was = Top.n
  /\ r.tnw = TotalVW(Top)
  /\ ValidAssignment(Top.n, r.full, r.k)
  /\ SubSeq(r.full, 1, Len(r.core)) = r.core
  /\ r.bw = BlockWeights(Top, r.full, r.k)
  /\ BucketCounts(r, Degrees(Top))
  /\ (Top.vw = <<>> \/ MaxVW(Top) = 1) =>
        LET before == BlockWeights([n |-> Len(r.core), vw |-> <<>>], r.core, r.k) IN
          \* no overload appears while there is room elsewhere
          (\E b \in 1 .. r.k : r.bw[b] > Max2(before[b], r.lim[b])) =>
             \A b \in 1 .. r.k : r.bw[b] >= r.lim[b]

IsPermutation(r) ==
  /\ r.g.n = Top.n /\ IsQuotient(Top, r.g, r.map, r.ord)
  /\ \A u \in 1 .. Top.n : r.o2n[u] = r.map[u] /\ r.n2o[r.o2n[u] + 1] = u - 1
  \* sorted by bucket; a bucket keeps its order
  /\ \A i \in 1 .. Top.n - 1 : LET a == r.n2o[i] + 1  b == r.n2o[i + 1] + 1 IN
        r.bucket[a] < r.bucket[b] \/ (r.bucket[a] = r.bucket[b] /\ a < b)

IsContraction(r) ==
  LET cn == r.g.n IN
    /\ IsQuotient(Finest, r.g, r.map, r.ord)
    /\ Totals(r)
    /\ r.maxvw >= MaxVW(r.g)
    /\ r.maxdeg = Max0(ToSet(Degrees(r.g)))
    \* same vertex <=> same cluster
    /\ Cardinality({ <<r.cl[u], r.map[u]>> : u \in 1 .. Finest.n }) = cn
    /\ Cardinality(ToSet(r.cl)) = cn

IsProjection(r, c, f) ==
  /\ Len(r.fine) = f.n /\ Len(r.coarse) = c.n /\ Len(r.down) = c.n
  /\ r.down = r.coarse
  /\ r.ccut = Cut(c, r.coarse) /\ r.fcut = Cut(f, r.fine) /\ r.ccut = r.fcut
  /\ r.cbw = BlockWeights(c, r.coarse, r.k) /\ r.fbw = r.cbw /\ r.fbw = BlockWeights(f, r.fine, r.k)

IsClustering(r) ==
  /\ ValidAssignment(Top.n, r.cl, Max2(1, Top.n))
  /\ LET w == BlockWeights(Top, r.cl, Top.n)
         c == BlockWeights([n |-> Top.n, vw |-> <<>>], r.cl, Top.n)
     IN \A b \in 1 .. Top.n : c[b] > 1 => w[b] <= r.maxw + (r.threads - 1) * MaxVW(Top)   \* LabelPropagation.tla: WeightLimit
  /\ r.comm # <<>> =>
        Cardinality({ <<r.cl[u], r.comm[u]>> : u \in 1 .. Top.n }) = Cardinality(ToSet(r.cl))

\* a new level
IsLevel(r) == /\ Totals(r) /\ r.tnw = TotalVW(Top) /\ r.tew <= TotalEW(Top)
              /\ r.g.n <= Top.n
              /\ (comm # <<>> => Len(r.comm) = r.g.n)
IsShown(r, g) == /\ r.n = g.n /\ ValidAssignment(g.n, r.part, r.k)
                 /\ r.bw = BlockWeights(g, r.part, r.k)
                 /\ r.cut = Cut(g, r.part)

Step(r) ==
  CASE r.ev = "graph" -> st' = <<r.g>> /\ comm' = <<>> /\ part' = <<>>
    [] r.ev = "edges" -> /\ Holds(r.g.n = Top.n /\ IsQuotient(Top, r.g, r.map, r.ord) /\ Totals(r) /\ r.seen = r.cseen)
                         /\ UNCHANGED <<st, comm, part>>
    [] r.ev = "buckets" -> Holds(IsPermutation(r)) /\ UNCHANGED <<st, comm, part>>
    [] r.ev = "degree" -> Holds(IsDegreeOrder(r)) /\ st' = <<r.g>> /\ UNCHANGED <<comm, part>>
    [] r.ev = "cut" -> Holds(IsCut(r)) /\ UNCHANGED <<st, comm, part>>
    [] r.ev = "uncut" -> Holds(IsUncut(r)) /\ UNCHANGED <<st, comm, part>>
    [] r.ev = "contract" -> Holds(IsContraction(r)) /\ st' = <<Finest, r.g>> /\ part' = r.map /\ UNCHANGED comm
    [] r.ev = "project" -> /\ Holds(IsProjection(r, st[2], st[1])
                                    /\ \A u \in 1 .. Len(r.fine) : r.fine[u] = r.coarse[part[u] + 1])
                           /\ UNCHANGED <<st, comm, part>>
    [] r.ev = "cluster" -> Holds(IsClustering(r)) /\ UNCHANGED <<st, comm, part>>
    [] r.ev = "input" -> comm' = (IF r.comm = <<>> THEN <<>> ELSE <<r.comm>>) /\ UNCHANGED <<st, part>>
    [] r.ev = "level" -> /\ Holds(IsLevel(r))
                         /\ r.level = Len(st) /\ st' = Append(st, r.g)
                         /\ comm' = (IF comm = <<>> THEN <<>> ELSE Append(comm, r.comm)) /\ UNCHANGED part
    [] r.ev = "map" -> /\ Holds(r.level = Len(st) - 2 /\ IsQuotient(st[Len(st) - 1], Top, r.map, r.ord))
                       /\ Holds(comm # <<>> => \A u \in 1 .. Len(r.map) : comm[r.level + 1][u] = comm[r.level + 2][r.map[u] + 1])
                       /\ st' = SubSeq(st, 1, Len(st) - 1) /\ UNCHANGED <<comm, part>>
    [] r.ev = "coarsest" -> Holds(r.level = Len(st) - 1 /\ IsShown(r, Top)) /\ part' = r /\ UNCHANGED <<st, comm>>
    [] r.ev = "refined" -> Holds(r.level = Len(st) - 1 /\ IsShown(r, Top)) /\ part' = r /\ UNCHANGED <<st, comm>>
    [] r.ev = "uncoarsen" -> /\ Holds(r.level = Len(st) - 2 /\ IsShown(r, st[Len(st) - 1])
                                      /\ r.cut = part.cut /\ r.bw = part.bw)
                             /\ st' = SubSeq(st, 1, Len(st) - 1) /\ part' = r /\ UNCHANGED comm

TNext == l <= Len(Trace) /\ l' = l + 1 /\ \E r \in {Trace[l]} : Step(r)
============================================================================
