---------------------------- MODULE RefinerTrace ----------------------------
(***************************************************************************)
(* Recorded block moves and refinement runs.                               *)
(*                                                                         *)
(*  moves    several threads move vertices with PartitionedGraph::move;    *)
(*           mv lists the attempts <<vertex, from, to, success>>, those of *)
(*           one vertex in the order they were made (one thread each)      *)
(*  refine   a sequence of refinement algorithms ran on partition p0 with  *)
(*           block weight limits lim and returned p1                       *)
(***************************************************************************)
EXTENDS Graphs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, g
vars == <<l, g>>
TInit == l = 1 /\ g = [n |-> 0]

\* no block gains weight beyond its limit (blocks that start above it may only shrink)
Guarded(w0, w1, lim) == \A b \in 1 .. Len(lim) : w1[b] <= Max2(w0[b], lim[b])
Overload(w, lim) == SumRange(1, Len(lim), LAMBDA b : Max2(0, w[b] - lim[b]))
Feasible(w, lim) == Overload(w, lim) = 0

\* ------------------------------------------------------------- concurrent moves
Weighs(r, w0) ==
  LET inc == FoldLeft(LAMBDA a, m : IF m[4] = 1 THEN [a EXCEPT ![m[3] + 1] = @ + VW(g, m[1])] ELSE a, w0, r.mv)
  IN inc \* the most a block may have weighed at any time
MovesOk(r) ==
  LET w0 == BlockWeights(g, r.p0, r.k)
      w1 == BlockWeights(g, r.p1, r.k)
      most == Weighs(r, w0)
      end == FoldLeft(LAMBDA p, m : IF m[4] = 1 THEN [p EXCEPT ![m[1] + 1] = m[3]] ELSE p, <<>> \o r.p0, r.mv)
  IN /\ ValidAssignment(g.n, r.p1, r.k)
     /\ r.bw = w1                              \* the book-keeping is exact
     /\ end = <<>> \o r.p1                     \* moves that succeed happen, others do not
     /\ Guarded(w0, w1, r.lim)
     \* a move is only refused if its target may have been too heavy at some time
     /\ \A i \in 1 .. Len(r.mv) : LET m == r.mv[i] IN m[4] = 1 \/ most[m[3] + 1] + VW(g, m[1]) > r.lim[m[3] + 1]

\* ------------------------------------------------------------- refinement
Pure(p, comm) == \A i, j \in 1 .. Len(p) : p[i] = p[j] => comm[i] = comm[j]
\* for every vertex the weight of its edges into every block, as a sequence over edges grouped by source
Conn(u, p, k) == FoldLeft(LAMBDA c, i : IF g.s[i] = u THEN [c EXCEPT ![p[g.t[i] + 1] + 1] = @ + EWt(g, i)] ELSE c,
                          Zeros(k), [i \in 1 .. M(g) |-> i])
\* some vertex has a strictly better block that has room for it
Improvable(p, w, r, strict) ==
  \E u \in Vertices(g) : \E c \in {Conn(u, p, r.k)} :
     \E b \in 1 .. r.k : c[b] > c[p[u + 1] + 1] /\ w[b] + VW(g, u) + strict <= r.lim[b]
UnitWeights == \A u \in Vertices(g) : VW(g, u) = 1

RefineOk(r) ==
  LET w0 == BlockWeights(g, r.p0, r.k)
      w1 == BlockWeights(g, r.p1, r.k)
      c0 == Cut(g, r.p0)
      c1 == Cut(g, r.p1)
      A == ToSet(r.algs)
      only(S) == A \subseteq S
      seq == r.threads = 1
  IN /\ ValidAssignment(g.n, r.p1, r.k)
     /\ r.bw = w1
     /\ r.cut = c1
     \* limits: label propagation and the balancer keep them under any schedule, FM on its own
     /\ (only({"lp", "balancer"}) \/ (seq /\ only({"lp", "balancer", "fm"}))) => Guarded(w0, w1, r.lim)
     \* the cut: Jet returns the best partition it has seen; searches of a single thread only move for profit
     /\ (only({"jet"}) \/ (seq /\ only({"jet", "fm"} \cup (IF r.full THEN {"lp"} ELSE {})))) => c1 <= c0
     \* the first search starts from all border vertices: its first move is an improving one, if there is one
     /\ (seq /\ r.algs = <<"fm">> /\ r.seeds >= g.n /\ c1 = c0 /\ Feasible(w0, r.lim)) => ~Improvable(r.p0, w0, r, 0)
     \* label propagation that stops early has reached a local optimum (if no limit got in its way)
     /\ (r.algs = <<"lp">> /\ r.full /\ ~r.ret /\ r.comm = <<>>
         /\ \A b \in 1 .. r.k : r.lim[b] > TotalVW(g)) => ~Improvable(r.p1, w1, r, 0)
     /\ (only({"lp"}) /\ r.comm # <<>> /\ Holds(Pure(r.p0, r.comm))) => Pure(r.p1, r.comm)
     \* the balancer
     /\ r.algs = <<"balancer">> =>
          /\ r.ret = Feasible(w1, r.lim)
          /\ Overload(w1, r.lim) <= Overload(w0, r.lim)
          /\ Feasible(w0, r.lim) => r.p1 = r.p0
          /\ (UnitWeights /\ SumSeq(r.lim) >= g.n) => Feasible(w1, r.lim)
Step(r) ==
  CASE r.ev = "graph" -> g' = r.g
    [] r.ev = "moves" -> Holds(MovesOk(r)) /\ UNCHANGED g
    [] r.ev = "refine" -> Holds(RefineOk(r)) /\ UNCHANGED g
TNext == l <= Len(Trace) /\ l' = l + 1 /\ \E r \in {Trace[l]} : Step(r)
=============================================================================
