-------------------------- MODULE DistBlocksTrace ---------------------------
(***************************************************************************)
(* Validates recorded operations on partitions of distributed graphs:      *)
(* scattering the subgraphs induced by the blocks to the PEs, dividing the *)
(* blocks there and bringing the result back; copies of the graph on every *)
(* PE or on groups of PEs, and choosing the best of their partitions.      *)
(***************************************************************************)
EXTENDS DistDataTrace, BlockHolders
\* x: blocks extracted last; y: their division; o: partitions offered last
VARIABLES x, y, o
bvars == <<vars, x, y, o>>
BInit == TInit /\ x = <<>> /\ y = <<>> /\ o = <<>>
Same == UNCHANGED <<x, y, o>>
Stay == UNCHANGED <<H, ids, nd, c, C>>

\* ---- subgraphs on a PE: n, m, edges <<s, t, w>>, vertex weights, P+1 offsets; one after the other
Sub(f, at, P) ==
  LET n == f[at]
      m == f[at + 1]
      e0 == at + 2
      v0 == e0 + 3 * m
      o0 == v0 + n IN
  [n |-> n, m |-> m, E |-> { <<f[e0 + 3 * j], f[e0 + 3 * j + 1], f[e0 + 3 * j + 2]>> : j \in 0 .. m - 1 },
   vw |-> SubSeq(f, v0, v0 + n - 1), off |-> SubSeq(f, o0, o0 + P), end |-> o0 + P + 1]
Subs(f, cnt, P) == FoldLeft(LAMBDA a, i : LET s == Sub(f, IF i = 1 THEN 1 ELSE a[i - 1].end, P) IN Append(a, s),
                            <<>>, [i \in 1 .. cnt |-> i])
\* block b (from 0) of partition p of H, its vertices in the order of their ids
Members(p, b) == SelectSeq([u \in 1 .. Len(p) |-> u], LAMBDA u : p[u] = b)
SubOK(s, p, b, map, P) ==
  \E mem \in {Members(p, b)} :
  \E at \in {[u \in ToSet(mem) |-> LET r == OwnerOf(nd, u - 1) IN s.off[r + 1] + map[r + 1][u - nd[r + 1]]]} :
  /\ s.n = Len(mem) /\ s.m = Cardinality(s.E)
  /\ s.off[1] = 0 /\ s.off[P + 1] = s.n
  /\ \A r \in 1 .. P : s.off[r + 1] - s.off[r] = Cardinality({ u \in ToSet(mem) : OwnerOf(nd, u - 1) = r - 1 })
  /\ { at[u] : u \in ToSet(mem) } = 0 .. s.n - 1
  /\ s.E = { <<at[e[1] + 1], at[e[2] + 1], e[3]>> : e \in { z \in H.E : p[z[1] + 1] = b /\ p[z[2] + 1] = b } }
  /\ \A u \in ToSet(mem) : s.vw[at[u] + 1] = H.vw[u]
BExtract == /\ Is("extract") /\ Stay /\ UNCHANGED <<y, o>>
            /\ \E P \in {Len(R.fb)} : \E S \in {[pe \in 1 .. P |-> Subs(R.flat[pe], R.cnt[pe][1], P)]} :
               /\ Holds(HolderSets(R, R.k, P) /\ \A pe \in 1 .. P :
                    Len(S[pe]) = R.nb[pe] /\ \A i \in 1 .. Len(S[pe]) : SubOK(S[pe][i], R.p, R.fb[pe] + i - 1, R.map, P))
               /\ x' = [k |-> R.k, p |-> R.p, fb |-> R.fb, fp |-> R.fp, ip |-> R.ip, S |-> S, map |-> R.map]
BDivide == Is("divide") /\ Stay /\ y' = [k2 |-> R.k2, sub |-> R.sub] /\ UNCHANGED <<x, o>>

\* ---- partitions
CutOf(h, p) == FoldLeft(LAMBDA a, e : a + (IF p[e[1] + 1] # p[e[2] + 1] THEN e[3] ELSE 0), 0, SetToSeq(h.E)) \div 2
WeightsOf(h, p, k) == FoldLeft(LAMBDA a, u : [a EXCEPT ![p[u] + 1] = @ + h.vw[u]], Zeros(k), [u \in 1 .. h.n |-> u])
\* the partition known to the owners; all PEs report the same blocks, weights and cut
OwnBlocks(b) == Concat(Len(nd) - 1, LAMBDA q : SubSeq(b[q], 1, nd[q + 1] - nd[q]))
PartOK(r, p, k) == /\ r.k = k /\ Len(p) = H.n /\ ToSet(p) \subseteq 0 .. k - 1
                   /\ \A q \in 1 .. Len(r.b) : Len(r.b[q]) = Len(ids[q]) /\ \A j \in 1 .. Len(ids[q]) : r.b[q][j] = p[ids[q][j] + 1]
                   /\ \E W \in {WeightsOf(H, p, k)} : \A q \in 1 .. Len(r.w) : r.w[q] = W
                   /\ \E z \in {CutOf(H, p)} : \A q \in 1 .. Len(r.cut) : r.cut[q] = z
\* the division of its i-th subgraph that PE pe (from 1) came up with
SubPart(pe, i) == LET skip == SumSeq([j \in 1 .. i - 1 |-> x.S[pe][j].n]) IN SubSeq(y.sub[pe], skip + 1, skip + x.S[pe][i].n)
BDivided ==
  /\ Is("divided") /\ Stay /\ Same
  /\ Holds(\E p \in {OwnBlocks(R.b)} :
       /\ PartOK(R, p, x.k * y.k2)
       /\ \A b \in 0 .. x.k - 1 :
          \E D \in {[pe \in x.fp[b + 1] + 1 .. x.ip[b + 1] |-> SubPart(pe, b - x.fb[pe] + 1)]} :
          \E cuts \in {[pe \in DOMAIN D |-> CutOf(x.S[pe][b - x.fb[pe] + 1], D[pe])]} :
          \E pe \in DOMAIN D :
            /\ \A z \in DOMAIN D : cuts[pe] <= cuts[z]
            /\ \A u \in ToSet(Members(x.p, b)) : LET r == OwnerOf(nd, u - 1) IN
                 p[u] = b * y.k2 + D[pe][x.S[pe][b - x.fb[pe] + 1].off[r + 1] + x.map[r + 1][u - nd[r + 1]] + 1])

\* ---- copies of the graph
Copy(r, i) == [n |-> Len(r.vw[i]), vw |-> r.vw[i], m |-> Len(r.s[i]),
               E |-> { <<r.s[i][j], r.t[i][j], r.w[i][j]>> : j \in 1 .. Len(r.s[i]) }]
BGathered == /\ Is("gathered") /\ Stay /\ Same
             /\ Holds(\A i \in 1 .. Len(R.s) : Copy(R, i) = H /\
                        R.tot[i] = <<H.n, H.m, SumSeq(H.vw), SumSeq(R.w[i]), Max0(ToSet(H.vw))>>)
BReplica == Is("view") /\ R.name = "replica" /\ Stay /\ Same /\ Holds(AllViewsOK(R, H))
BOffered == Is("offered") /\ Stay /\ o' = [k |-> R.k, p |-> R.p] /\ UNCHANGED <<x, y>>
BBest == /\ Is("best") /\ Stay /\ Same
         /\ Holds(\E p \in {OwnBlocks(R.b)} : PartOK(R, p, o.k) /\ \E i \in 1 .. Len(o.p) :
                    o.p[i] = p /\ \A j \in 1 .. Len(o.p) : R.cut[1] <= CutOf(H, o.p[j]))
BGatheredP == Is("gatheredp") /\ Stay /\ Same /\ Holds(R.k = o.k /\ \A i \in 1 .. Len(R.p) : R.p[i] = o.p[1])
BNext == \/ (TGraph \/ TView \/ TEnd) /\ Same
         \/ BExtract \/ BDivide \/ BDivided \/ BGathered \/ BReplica \/ BOffered \/ BBest \/ BGatheredP
=============================================================================
