----------------------------- MODULE Multilevel -----------------------------
(***************************************************************************)
(* The multilevel scheme: a stack of contracted graphs, a partition of the *)
(* coarsest one, projected down level by level and refined in between.     *)
(* Every clustering is allowed that respects weight limit and communities. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NumNodes, MaxLevels, MaxWeight, K, Variant, WithCommunities
ASSUME Variant \in {"ok", "DropParallel", "KeepLoops", "LeaderWeight", "IgnoreCommunities"}
VARIABLES levels,  \* graphs: [n, e, w, com], e: pair of vertices -> weight (symmetric, 0 if no edge)
          maps,    \* maps[i]: vertices of level i -> vertices of level i+1
          part, phase, cut
vars == <<levels, maps, part, phase, cut>>
V(g) == 1 .. g.n
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
Pairs(n) == { p \in (1 .. n) \X (1 .. n) : p[1] # p[2] }
Edges(n) == { f \in [Pairs(n) -> {0, 1}] : \A p \in Pairs(n) : f[p] = f[<<p[2], p[1]>>] }
Top == levels[Len(levels)]
CutOf(g, p) == SumOver({ q \in Pairs(g.n) : p[q[1]] # p[q[2]] }, g.e) \div 2
BW(g, p) == [b \in 1 .. K |-> SumOver({ u \in V(g) : p[u] = b }, g.w)]

Init == /\ \E e \in Edges(NumNodes), com \in [1 .. NumNodes -> IF WithCommunities THEN {1, 2} ELSE {1}] :
             levels = <<[n |-> NumNodes, e |-> e, w |-> [u \in 1 .. NumNodes |-> 1], com |-> com]>>
        /\ maps = <<>> /\ part = <<>> /\ phase = "coarsen" /\ cut = 0

\* surjective mappings of the vertices of g to fewer vertices, numbered by first occurrence
Maps(g) == { m \in [V(g) -> V(g)] : m[1] = 1 /\ \A u \in 2 .. g.n : \E v \in 1 .. u - 1 : m[u] <= m[v] + 1 }
Count(g, m) == Cardinality({ m[u] : u \in V(g) })
Allowed(g, m) == /\ \A c \in 1 .. Count(g, m) : LET S == { u \in V(g) : m[u] = c } IN
                      /\ Cardinality(S) > 1 => SumOver(S, g.w) <= MaxWeight
                      /\ Variant = "IgnoreCommunities" \/ \A u, v \in S : g.com[u] = g.com[v]
Quotient(g, m) ==
  LET cn == Count(g, m) IN
  [n |-> cn,
   w |-> [c \in 1 .. cn |-> IF Variant = "LeaderWeight" THEN g.w[CHOOSE u \in V(g) : m[u] = c]
                            ELSE SumOver({ u \in V(g) : m[u] = c }, g.w)],
   e |-> [p \in Pairs(cn) |->
            LET S == { q \in Pairs(g.n) : m[q[1]] = p[1] /\ m[q[2]] = p[2] } IN
              IF Variant = "DropParallel" THEN (IF \E q \in S : g.e[q] > 0 THEN 1 ELSE 0) ELSE SumOver(S, g.e)],
   com |-> [c \in 1 .. cn |-> g.com[CHOOSE u \in V(g) : m[u] = c]]]
Coarsen == /\ phase = "coarsen" /\ Len(levels) < MaxLevels
           /\ \E m \in Maps(Top) : /\ Count(Top, m) < Top.n /\ Allowed(Top, m)
                                   /\ levels' = Append(levels, Quotient(Top, m)) /\ maps' = Append(maps, m)
           /\ UNCHANGED <<part, phase, cut>>
Partition == /\ phase = "coarsen" /\ phase' = "refine"
             /\ \E p \in [V(Top) -> 1 .. K] : part' = p /\ cut' = CutOf(Top, p)
             /\ UNCHANGED <<levels, maps>>
Refine == /\ phase = "refine" /\ Len(levels) > 1
          /\ \E u \in V(Top), b \in 1 .. K : LET p == [part EXCEPT ![u] = b] IN
                CutOf(Top, p) < CutOf(Top, part) /\ part' = p /\ cut' = CutOf(Top, p)
          /\ UNCHANGED <<levels, maps, phase>>
Uncoarsen == /\ phase = "refine" /\ Len(levels) > 1
             /\ LET m == maps[Len(maps)]  g == levels[Len(levels) - 1] IN
                  part' = [u \in V(g) |-> part[m[u]]]
             /\ levels' = SubSeq(levels, 1, Len(levels) - 1) /\ maps' = SubSeq(maps, 1, Len(maps) - 1)
             /\ UNCHANGED <<phase, cut>>
Next == Coarsen \/ Partition \/ Refine \/ Uncoarsen \/ (phase = "refine" /\ Len(levels) = 1 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Partition) /\ WF_vars(Uncoarsen)

WeightKept == \A i \in 1 .. Len(levels) : SumOver(V(levels[i]), levels[i].w) = NumNodes
\* the cut known on the coarse level is the cut of the projected partition
CutKept == phase = "refine" => cut = CutOf(Top, part)
BlocksKept == phase = "refine" => SumOver(1 .. K, BW(Top, part)) = NumNodes
\* whatever the partition of the coarse graph: it has the same cut and block weights one level below
Faithful == Len(levels) < 2 \/ LET g == levels[Len(levels) - 1]  m == maps[Len(maps)] IN
              \A p \in [V(Top) -> 1 .. K] : /\ CutOf(Top, p) = CutOf(g, [u \in V(g) |-> p[m[u]]])
                                            /\ BW(Top, p) = BW(g, [u \in V(g) |-> p[m[u]]])
\* the communities form a partition of every level with the same cut
RECURSIVE Comp(_, _)
Comp(i, u) == IF i > Len(maps) THEN u ELSE Comp(i + 1, maps[i][u])
CommunitiesKept == \A u \in V(levels[1]) : Top.com[Comp(1, u)] = levels[1].com[u]
Ends == <>(phase = "refine" /\ Len(levels) = 1)
=============================================================================
