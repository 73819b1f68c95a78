----------------------------- MODULE GraphFiles -----------------------------
(***************************************************************************)
(* What the files that KaMinPar reads and writes describe.                 *)
(*                                                                         *)
(* METIS: a sequence of lines, every line a sequence of numbers; a comment *)
(* is the line <<-1>>. The first other line is the header <<n, m>> or      *)
(* <<n, m, format>>, the next n lines (missing ones at the end of the file *)
(* are empty) are the vertices: [size] [weight] neighbor [weight] ...      *)
(* ParHIP: 32 bit words, see Decode. A graph is a record as in Plain:      *)
(* [n, vw, m, E].                                                          *)
(***************************************************************************)
EXTENDS Graphs

Plain(g) == [n |-> g.n, vw |-> <<>> \o [u \in 1 .. g.n |-> VW(g, u - 1)], m |-> M(g),
             E |-> { <<g.s[i], g.t[i], EWt(g, i)>> : i \in 1 .. M(g) }]
Digit(x, d) == Mod(x \div d, 10)
Concat(k, F(_)) == FoldLeft(LAMBDA a, i : a \o F(i), <<>>, [i \in 1 .. k |-> i])

\* ---- METIS
IsComment(q) == Len(q) = 1 /\ q[1] = -1
MetisGraph(lines) ==
  LET L == SelectSeq(lines, LAMBDA q : ~IsComment(q))
      n == L[1][1]
      fmt == IF Len(L[1]) > 2 THEN L[1][3] ELSE 0
      sizes == Digit(fmt, 100)
      nw == Digit(fmt, 10)
      step == 1 + Digit(fmt, 1)
      Line(u) == IF u + 2 <= Len(L) THEN L[u + 2] ELSE <<>>
      deg == <<>> \o [u \in 1 .. n |-> (Len(Line(u - 1)) - sizes - nw) \div step]
      Nb(u, i) == Line(u)[sizes + nw + step * (i - 1) + 1] - 1
      Wt(u, i) == IF step = 2 THEN Line(u)[sizes + nw + step * i] ELSE 1
  IN [n |-> n,
      vw |-> <<>> \o [u \in 1 .. n |-> IF nw = 1 THEN Line(u - 1)[sizes + 1] ELSE 1],
      m |-> SumSeq(deg),
      E |-> UNION { { <<u, Nb(u, i), Wt(u, i)>> : i \in 1 .. deg[u + 1] } : u \in 0 .. n - 1 }]
\* the edge count of the header counts every edge once
MetisHeaderOK(lines) ==
  LET L == SelectSeq(lines, LAMBDA q : ~IsComment(q)) IN 2 * L[1][2] = MetisGraph(lines).m

\* ---- ParHIP: w[i] is the i-th 32 bit word (numbers below 2^31)
\* flags of the version word, all inverted: edge weights, vertex weights; 64 bit edge ids, vertex ids,
\* vertex weights, edge weights
Flag(w, b) == 1 - Mod(w[1] \div 2 ^ b, 2)
Wide(w, b) == 1 + Flag(w, b)                          \* words per item
ParhipOffset(w, u) == LET n == w[3]
                          ew == Wide(w, 2)
                          base == 4 * (6 + (n + 1) * ew)
                          off == w[6 + u * ew + 1] IN
                      (off - base) \div (4 * Wide(w, 3))
ParhipGraph(w) ==
  LET n == w[3]
      m == w[5]
      targets == 6 + (n + 1) * Wide(w, 2)
      vweights == targets + m * Wide(w, 3)
      eweights == vweights + (IF Flag(w, 1) = 1 THEN n * Wide(w, 4) ELSE 0)
      x == <<>> \o [u \in 1 .. n + 1 |-> ParhipOffset(w, u - 1)]
  IN [n |-> n,
      vw |-> <<>> \o [u \in 1 .. n |-> IF Flag(w, 1) = 1 THEN w[vweights + (u - 1) * Wide(w, 4) + 1] ELSE 1],
      m |-> x[n + 1],
      E |-> UNION { { <<u - 1, w[targets + (i - 1) * Wide(w, 3) + 1],
                        IF Flag(w, 0) = 1 THEN w[eweights + (i - 1) * Wide(w, 5) + 1] ELSE 1>> : i \in x[u] + 1 .. x[u + 1] }
                    : u \in 1 .. n }]
ParhipLength(w) ==
  LET n == w[3]
      m == w[5] IN
  6 + (n + 1) * Wide(w, 2) + m * Wide(w, 3) + (IF Flag(w, 1) = 1 THEN n * Wide(w, 4) ELSE 0) + (IF Flag(w, 0) = 1 THEN m * Wide(w, 5) ELSE 0)

\* H with vertex u called p[u+1]
Renamed(H, p) ==
  LET old == [v \in 0 .. H.n - 1 |-> CHOOSE u \in 1 .. H.n : p[u] = v] IN
  [n |-> H.n, m |-> H.m, vw |-> <<>> \o [v \in 1 .. H.n |-> H.vw[old[v - 1]]],
   E |-> { <<p[e[1] + 1], p[e[2] + 1], e[3]>> : e \in H.E }]
IsPermutation(p, n) == Len(p) = n /\ ToSet(p) = 0 .. n - 1

\* an undirected graph: every edge has its reverse of the same weight, none occurs twice
Undirected(H) == /\ Cardinality({ <<e[1], e[2]>> : e \in H.E }) = H.m
                 /\ \A e \in H.E : <<e[2], e[1], e[3]>> \in H.E
Degree(H, u) == Cardinality({ e \in H.E : e[1] = u })
Bucket(d) == IF d = 0 THEN 0 ELSE 1 + CHOOSE b \in 0 .. 30 : 2 ^ b <= d /\ d \div 2 < 2 ^ b
\* vertices ordered by degree class, isolated ones last
Bucketed(H) == \E d \in {<<>> \o [u \in 1 .. H.n |-> Degree(H, u - 1)]} :
               \A u \in 1 .. H.n - 1 : d[u + 1] = 0 \/ (d[u] # 0 /\ Bucket(d[u]) <= Bucket(d[u + 1]))
=============================================================================
