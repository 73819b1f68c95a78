--------------------------- MODULE DistDataTrace ----------------------------
(***************************************************************************)
(* Validates recorded operations on distributed graphs: what every PE sees *)
(* of them, messages along cut edges, contraction.                         *)
(***************************************************************************)
EXTENDS DistGraphs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* H: the graph in use; ids: what the PEs know of it; c: clustering being contracted; C: coarse graph
VARIABLES l, H, ids, nd, c, C
vars == <<l, H, ids, nd, c, C>>
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.ev = e /\ l' = l + 1
None == [n |-> 0, m |-> 0, vw |-> <<>>, E |-> {}]
TInit == l = 1 /\ H = None /\ ids = <<>> /\ nd = <<>> /\ c = <<>> /\ C = None
TGraph == Is("graph") /\ (\E g \in {Plain(R.g)} : H' = g) /\ nd' = R.dist /\ ids' = <<>> /\ c' = <<>> /\ C' = None
TView == /\ Is("view") /\ R.name \notin {"coarse", "replica"}
         /\ \E h \in {IF R.name = "rearranged" THEN Renumbered(R, H) ELSE H} : Holds(AllViewsOK(R, h)) /\ H' = h
         /\ Holds(R.nd[1] = nd)
         /\ ids' = R.ids /\ UNCHANGED <<nd, c, C>>

\* ---- messages along cut edges: triples <<sender, u, v>> that PE d gets; v = 0 if sent once per PE
ToGhost(kind) == kind \in {3, 4}
LocalRank(u) == OwnerOf(nd, u)
Sends(u) == LET r == LocalRank(u)
                i == u - nd[r + 1]
                n == nd[r + 2] - nd[r + 1]
                at == IF R.kind = 5 THEN n - 1 - i ELSE i IN
            /\ Mod(u, R.mod) = 0
            /\ (R.kind \in {1, 4, 5} => R.from[r + 1] <= at /\ at < R.to[r + 1])
Expected(d) == { <<LocalRank(e[1]), e[1], IF ToGhost(R.kind) THEN e[2] ELSE 0>> :
                 e \in { x \in H.E : LocalRank(x[2]) = d /\ LocalRank(x[1]) # d /\ Sends(x[1]) } }
Triples(f) == [j \in 1 .. Len(f) \div 3 |-> <<f[3 * j - 2], f[3 * j - 1], f[3 * j]>>]
TComm == /\ Is("comm") /\ UNCHANGED <<H, ids, nd, c, C>>
         /\ Holds(\A d \in 1 .. Len(R.got) : \E q \in {Triples(R.got[d])} : \E X \in {Expected(d - 1)} :
                    ToSet(q) = X /\ Len(q) = Cardinality(X))
\* colors: sizes of the color classes on every PE (prefix sums)
TColors == Is("colors") /\ UNCHANGED <<H, ids, nd, c, C>> /\
           Holds(\A i \in 1 .. Len(R.sizes) : R.sizes[i] = <<>> \/
                   /\ R.sizes[i][1] = 0 /\ R.sizes[i][Len(R.sizes[i])] = nd[i + 1] - nd[i]
                   /\ Len(R.sizes[i]) = Len(R.sizes[1])
                   /\ \A j \in 1 .. Len(R.sizes[i]) - 1 : R.sizes[i][j] <= R.sizes[i][j + 1])

\* ---- contraction
TContract == Is("contract") /\ c' = R.c /\ Holds(Len(R.c) = H.n) /\ UNCHANGED <<H, ids, nd, C>>
\* a limit on the coarse vertices of a PE (r.imb: per cent of the average, 0: none), if no PE is too small for it
Limited(r, k) ==
  LET P == Len(nd) - 1
      limit == (r.imb * Max2(1, k[P + 1] \div P)) \div 100 IN
  (r.imb > 0 /\ \A p \in 1 .. P : nd[p + 1] - nd[p] >= limit + P) =>
    \A p \in 1 .. P : \/ k[p + 1] - k[p] <= limit + P - 1
                      \/ (k[p + 1] - k[p]) * 100 * P <= r.imb * k[P + 1]
TCoarse == /\ Is("view") /\ R.name = "coarse"
           /\ \E h \in {Held(R, Group(R.color, 1))} : Holds(AllViewsOK(R, h) /\ Limited(Trace[l - 1], R.nd[1])) /\ C' = h
           /\ UNCHANGED <<H, ids, nd, c>>
\* the mapping of fine to coarse vertices, by owners and by PEs with ghosts
OwnMapping == Concat(Len(nd) - 1, LAMBDA p : SubSeq(R.m[p], 1, nd[p + 1] - nd[p]))
MappingOK(f) ==
  /\ Len(f) = H.n /\ ToSet(f) = 0 .. C.n - 1
  /\ \A i \in 1 .. Len(R.m) : Len(R.m[i]) = Len(ids[i]) /\ \A j \in 1 .. Len(ids[i]) : R.m[i][j] = f[ids[i][j] + 1]
  /\ Cardinality(ToSet(c)) = C.n /\ Cardinality({ <<c[u], f[u]>> : u \in 1 .. H.n }) = C.n
  /\ C = Contracted(H, f, C.n)
TMapping == Is("mapping") /\ Holds(\E f \in {OwnMapping} : MappingOK(f)) /\ UNCHANGED <<H, ids, nd, c, C>>
TEnd == Is("end") /\ UNCHANGED <<H, ids, nd, c, C>>
TNext == TGraph \/ TView \/ TComm \/ TColors \/ TContract \/ TCoarse \/ TMapping \/ TEnd
=============================================================================
