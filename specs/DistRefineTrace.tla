-------------------------- MODULE DistRefineTrace --------------------------
(***************************************************************************)
(* Validates recorded runs of distributed refinement, balancing and        *)
(* clustering algorithms: all PEs agree on the result, block weights are   *)
(* exact, and every algorithm keeps its promise about balance, cut or      *)
(* cluster weights.                                                        *)
(***************************************************************************)
EXTENDS DistBlocksTrace
\* a: the algorithm running and what it was given; p: current partition (<<>>: none yet)
VARIABLES a, p
dvars == <<bvars, a, p>>
DInit == BInit /\ a = <<>> /\ p = <<>>
Idle == Same /\ Stay

Grid(alg, relaxed) == ~relaxed /\ alg \in {"lp", "clp", "nbal", "cbal"}
Excess(W, lim) == SumSeq([b \in 1 .. Len(W) |-> Max2(0, W[b] - lim[b])])
\* nothing is put into a block beyond its limit
WithinLimits(W, V, lim) == \A b \in 1 .. Len(W) : V[b] > W[b] => V[b] <= lim[b]
Promise(q, r) ==
  \E W \in {WeightsOf(H, p, a.k)} : \E V \in {WeightsOf(H, q, a.k)} :
  \E before \in {Excess(W, a.lim)} : \E after \in {Excess(V, a.lim)} :
  /\ a.alg = "noop" => q = p
  /\ Grid(a.alg, a.relaxed) => WithinLimits(W, V, a.lim)
  /\ (a.alg \in {"nbal", "cbal"} /\ before = 0) => q = p
  /\ a.alg = "jet" => IF before = 0 THEN after = 0 /\ CutOf(H, q) <= CutOf(H, p) ELSE after <= before
DRefine == /\ Is("refine") /\ Idle
           /\ a' = [alg |-> R.alg, k |-> R.k, lim |-> R.lim, relaxed |-> R.relaxed]
           /\ p' = IF p = <<>> THEN R.p[1] ELSE p
DRefined == /\ Is("refined") /\ Idle /\ UNCHANGED a
            /\ \E q \in {OwnBlocks(R.b)} : Holds(PartOK(R, q, a.k) /\ Promise(q, R)) /\ p' = q

\* ---- clustering
DCluster == Is("cluster") /\ Idle /\ UNCHANGED p /\ a' = [alg |-> R.alg, max |-> R.max, nolimit |-> R.nolimit, threads |-> R.threads]
Labels == Concat(Len(nd) - 1, LAMBDA z : SubSeq(R.c[z], 1, nd[z + 1] - nd[z]))
Weight(f, s) == SumSeq([i \in 1 .. Len(f) |-> IF f[i] = s THEN H.vw[i] ELSE 0])
Size(f, s) == Cardinality({ i \in 1 .. Len(f) : f[i] = s })
\* clusters of several vertices exceed the limit by no more than concurrent joins allow
LimitOK(f, slack) == \A s \in ToSet(f) : Size(f, s) > 1 => Weight(f, s) <= a.max + slack
DClustered ==
  /\ Is("clustered") /\ Idle /\ UNCHANGED <<a, p>>
  /\ Holds(\E f \in {Labels} :
       /\ Len(f) = H.n /\ ToSet(f) \subseteq 0 .. H.n - 1
       /\ \A z \in 1 .. Len(R.c) : Len(R.c[z]) = Len(ids[z]) /\ \A j \in 1 .. Len(ids[z]) : R.c[z][j] = f[ids[z][j] + 1]
       /\ a.alg = "noop" => \A u \in 1 .. H.n : f[u] = u - 1
       /\ a.alg = "hem" => /\ \A s \in ToSet(f) : Size(f, s) <= 2 /\ f[s + 1] = s
                           /\ \A u \in 1 .. H.n : f[u] # u - 1 => \E e \in H.E : e[1] = u - 1 /\ e[2] = f[u]
                           /\ ~a.nolimit => LimitOK(f, 0)
       /\ (a.alg = "lp" /\ Len(nd) = 2) => LimitOK(f, (a.threads - 1) * Max0(ToSet(H.vw))))
DGraph == TGraph /\ Same /\ p' = <<>> /\ a' = <<>>
DOther == (TView \/ TEnd) /\ Same /\ UNCHANGED <<a, p>>
DNext == DGraph \/ DOther \/ DRefine \/ DRefined \/ DCluster \/ DClustered
=============================================================================
