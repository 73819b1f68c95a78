----------------------------- MODULE DistGraphs -----------------------------
(***************************************************************************)
(* A graph distributed to PEs: every PE owns an interval of the vertices,  *)
(* stores their edges, and knows their neighbors on other PEs ("ghosts")   *)
(* with owner and weight. A view V is a record of what every PE reports:   *)
(*   color    group of every PE; a group's PEs hold one graph together     *)
(*   ids      global ids of owned vertices, then ghosts                    *)
(*   own      owners of all of them       vw   their weights               *)
(*   s, t, w  edges (local ids, weights)  nd, ed  distribution of vertices *)
(*   cut, vol edges to / boundary vertices next to every PE     and edges  *)
(*   tot      numbers and total weights                                    *)
(* A plain graph is a record [n, vw, E, m]: E the set of directed edges    *)
(* <<u, v, weight>>, m their number.                                       *)
(***************************************************************************)
EXTENDS Graphs

Plain(g) == [n |-> g.n, vw |-> <<>> \o [u \in 1 .. g.n |-> VW(g, u - 1)], m |-> M(g),
             E |-> { <<g.s[i], g.t[i], EWt(g, i)>> : i \in 1 .. M(g) }]
Concat(k, F(_)) == FoldLeft(LAMBDA a, i : a \o F(i), <<>>, [i \in 1 .. k |-> i])

\* positions of the PEs in the group of position i, and the rank of position i
Group(color, i) == SelectSeq([j \in 1 .. Len(color) |-> j], LAMBDA j : color[j] = color[i])
RankIn(color, i) == Cardinality({ j \in 1 .. i - 1 : color[j] = color[i] })
OwnerOf(nd, u) == CHOOSE r \in 0 .. Len(nd) - 2 : nd[r + 1] <= u /\ u < nd[r + 2]

\* position i's edges with global ids
EdgesOf(V, i) == { <<V.ids[i][V.s[i][j] + 1], V.ids[i][V.t[i][j] + 1], V.w[i][j]>> : j \in 1 .. Len(V.s[i]) }
NumOwned(V, i) == LET r == RankIn(V.color, i) IN V.nd[i][r + 2] - V.nd[i][r + 1]
\* the graph a group holds
Held(V, q) == [n |-> V.nd[q[1]][Len(q) + 1], m |-> SumSeq([j \in 1 .. Len(q) |-> Len(V.s[q[j]])]),
               vw |-> Concat(Len(q), LAMBDA j : SubSeq(V.vw[q[j]], 1, NumOwned(V, q[j]))),
               E |-> UNION { EdgesOf(V, q[j]) : j \in 1 .. Len(q) }]

\* the local view of position i fits the graph H held by its group q
LocalOK(V, q, H, i) ==
  \E r \in {RankIn(V.color, i)} : \E n \in {NumOwned(V, i)} : \E nd \in {V.nd[i]} : \E all \in {Len(V.ids[i])} :
  \E X \in {{ <<V.ids[i][V.s[i][j] + 1], OwnerOf(nd, V.ids[i][V.t[i][j] + 1]), V.ids[i][V.t[i][j] + 1]>> : j \in 1 .. Len(V.s[i]) }} :
  /\ V.ok[i] = 1
  /\ nd = V.nd[q[1]] /\ Len(nd) = Len(q) + 1 /\ nd[1] = 0
  /\ V.ed[i] = V.ed[q[1]] /\ Len(V.ed[i]) = Len(q) + 1 /\ V.ed[i][1] = 0
  /\ V.ed[i][r + 2] - V.ed[i][r + 1] = Len(V.s[i])
  /\ all >= n /\ \A j \in 1 .. n : V.ids[i][j] = nd[r + 1] + j - 1 /\ V.own[i][j] = r
  /\ Cardinality({ V.ids[i][j] : j \in 1 .. all }) = all
  /\ { V.ids[i][j] : j \in n + 1 .. all } = { x[3] : x \in { y \in X : y[2] # r } }
  /\ Len(V.own[i]) = all /\ Len(V.vw[i]) = all
  /\ \A j \in n + 1 .. all : V.own[i][j] = OwnerOf(nd, V.ids[i][j])
  /\ \A j \in 1 .. all : V.vw[i][j] = H.vw[V.ids[i][j] + 1]
  /\ V.cut[i] = [p \in 1 .. Len(q) |-> IF p = r + 1 THEN 0 ELSE Cardinality({ x \in X : x[2] = p - 1 })]
  /\ V.vol[i] = [p \in 1 .. Len(q) |-> IF p = r + 1 THEN 0 ELSE Cardinality({ x[1] : x \in { y \in X : y[2] = p - 1 } })]
  /\ V.tot[i] = <<H.n, H.m, n, Len(V.s[i]), SumSeq(SubSeq(V.vw[i], 1, n)), SumSeq(H.vw),
                  V.tot[i][7], IF H.n = 0 THEN V.tot[i][8] ELSE Max0(ToSet(H.vw)), SumSeq(V.w[i]), SumSeq([j \in 1 .. Len(q) |-> SumSeq(V.w[q[j]])])>>
  \* the local maximum may or may not count ghosts
  /\ V.tot[i][7] \in {Max0({ V.vw[i][j] : j \in 1 .. n }), Max0(ToSet(V.vw[i])), Max0({ V.vw[i][j] : j \in 1 .. n } \cup {1})}
  /\ V.perm[i] = <<>> \/ (Len(V.perm[i]) = n /\ ToSet(V.perm[i]) = 0 .. n - 1)

\* ... of all members of the group of position i, which hold H
ViewOK(V, i, H) == \E q \in {Group(V.color, i)} :
  /\ Held(V, q) = H /\ Cardinality(H.E) = H.m
  /\ \A e \in H.E : <<e[2], e[1], e[3]>> \in H.E /\ e[1] # e[2]
  /\ \A j \in 1 .. Len(q) : LocalOK(V, q, H, q[j])
AllViewsOK(V, H) == \A i \in 1 .. Len(V.color) : RankIn(V.color, i) = 0 => ViewOK(V, i, H)

\* H with the owned vertices of every PE renumbered by V.perm (old local id -> new local id)
Renumbered(V, H) ==
  LET nd == V.nd[1]
      new == Concat(Len(nd) - 1, LAMBDA p : [j \in 1 .. Len(V.perm[p]) |-> nd[p] + V.perm[p][j]]) IN
  IF Len(new) # H.n THEN H
  ELSE LET old == [v \in 0 .. H.n - 1 |-> CHOOSE j \in 1 .. H.n : new[j] = v] IN
       [n |-> H.n, m |-> H.m, vw |-> <<>> \o [v \in 1 .. H.n |-> H.vw[old[v - 1]]],
        E |-> { <<new[e[1] + 1], new[e[2] + 1], e[3]>> : e \in H.E }]

\* H contracted along f (f[u+1]: coarse vertex of u, all of 0 .. nc-1 occurring)
Contracted(H, f, nc) ==
  LET W == FoldLeft(LAMBDA a, e : [a EXCEPT ![f[e[1] + 1] * nc + f[e[2] + 1] + 1] = @ + e[3]], Zeros(nc * nc), SetToSeq(H.E))
      E == { <<a, b, W[a * nc + b + 1]>> : a, b \in 0 .. nc - 1 } IN
  LET EC == { e \in E : e[1] # e[2] /\ e[3] > 0 } IN
  [n |-> nc, m |-> Cardinality(EC), E |-> EC,
   vw |-> FoldLeft(LAMBDA a, u : [a EXCEPT ![f[u] + 1] = @ + H.vw[u]], Zeros(nc), [u \in 1 .. H.n |-> u])]
=============================================================================
