----------------------------- MODULE CommTrace ------------------------------
(***************************************************************************)
(* What the communication layer of the distributed library promises,       *)
(* checked on recorded operations of all PEs. PEs are split into groups:   *)
(* color[p+1] is the group of PE p (rank in the whole job), ranks within a *)
(* group follow that order.                                                *)
(***************************************************************************)
EXTENDS GridTopology, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.ev = e /\ l' = l + 1

\* members of PE p's group (1-based positions), in rank order
Members(color, i) == SelectSeq([j \in 1 .. Len(color) |-> j], LAMBDA j : color[j] = color[i])
RankOf(color, i) == Cardinality({ j \in 1 .. i - 1 : color[j] = color[i] })
\* a PE's flat record "label, length, values, ..." resp. "length, values, ..." as a sequence
Parse(f, labelled) ==
  FoldLeft(LAMBDA a, i : IF i < a.at THEN a
                         ELSE LET h == IF labelled THEN i + 1 ELSE i IN
                              [at |-> h + f[h] + 1,
                               out |-> Append(a.out, <<IF labelled THEN f[i] ELSE Len(a.out), SubSeq(f, h + 1, h + f[h])>>)],
           [at |-> 1, out |-> <<>>], [i \in 1 .. Len(f) |-> i]).out

\* every PE hears once from every PE of its group (itself included), and gets exactly what that PE sent to it
Exchanged(color, sent, got, same) ==
  \A i \in 1 .. Len(color) :
    \E q \in {Members(color, i)} : \E g \in {Parse(got[i], TRUE)} :
    /\ Len(g) = Len(q)
    /\ { g[j][1] : j \in 1 .. Len(g) } = 0 .. Len(q) - 1
    /\ \A j \in 1 .. Len(g) : Parse(sent[q[g[j][1] + 1]], FALSE)[RankOf(color, i) + 1][2] = g[j][2]
    /\ same[i] = 1
Reduced(color, len, a, b) ==
  \A i \in 1 .. Len(color) :
    \E q \in {Members(color, i)} :
    /\ Len(b[i]) = Len(a[i])
    /\ \A x \in 1 .. Len(b[i]) :
         b[i][x] = IF x <= len THEN SumSeq([j \in 1 .. Len(q) |-> a[q[j]][x]]) ELSE a[i][x]
Occ(q, x) == Cardinality({ i \in 1 .. Len(q) : q[i] = x })
\* the first PE of the group holds everything exactly once, combined pairwise
Combined(color, a, b, calls) ==
  \A i \in 1 .. Len(color) :
    \E q \in {Members(color, i)} :
    IF RankOf(color, i) # 0 THEN b[i] = <<>>
    ELSE \E all \in {FoldLeft(LAMBDA s, j : s \o a[j], <<>>, q)} :
         /\ Len(b[i]) = Len(all)
         /\ \A x \in ToSet(all) : Occ(b[i], x) = Occ(all, x)
         /\ SumSeq([j \in 1 .. Len(q) |-> calls[q[j]]]) = IF Len(q) = 1 THEN 1 ELSE Len(q) - 1
Prefix(w) == [i \in 1 .. Len(w) + 1 |-> SumSeq(SubSeq(w, 1, i - 1))]
Helpers(color, v, f, one) ==
  \A i \in 1 .. Len(color) :
    \E q \in {Members(color, i)} : \E w \in {<<>> \o [j \in 1 .. Len(q) |-> v[q[j]]]} : \E pre \in {<<>> \o Prefix(w)} :
    /\ f[i] = pre \o w \o pre \o pre \o w \o SubSeq(pre, 1, Len(w)) \o w
    /\ one[i] = <<SumSeq(w), MaxOf(ToSet(w)), pre[RankOf(color, i) + 2], pre[RankOf(color, i) + 1], w[1]>>

\* the topology of the code; sizes of rows and columns as the code states them
Grid(r) ==
  \E T \in {[size |-> r.size, rows |-> r.rows, fullcols |-> r.fullcols, row |-> r.row, vcol |-> r.vcol, ve |-> r.ve]} :
  /\ Sound(T)
  /\ \A p \in 0 .. r.size - 1 : ColIdx(T, p) = r.col[p + 1]
  /\ \A w \in 0 .. r.rows - 1 : r.rs[w + 1] = Len(InRow(T, w))
  /\ \A c \in 0 .. r.fullcols - 1 : r.vs[c + 1] = Len(InCol(T, c))

TInit == l = 1
TStart == Is("start") \/ Is("end")
TGrid == Is("grid") /\ Holds(Grid(R))
TExchange == Is("exchange") /\ Holds(Exchanged(R.color, R.sent, R.got, R.same))
TReduce == Is("allreduce") /\ Holds(Reduced(R.color, R.len, R.a, R.b))
TBinary == Is("reduction") /\ Holds(Combined(R.color, R.a, R.b, R.calls))
TMisc == Is("misc") /\ Holds(Helpers(R.color, R.v, R.f, R.one))
TNext == TStart \/ TGrid \/ TExchange \/ TReduce \/ TBinary \/ TMisc
=============================================================================
