---------------------------- MODULE GridAlltoall ----------------------------
(***************************************************************************)
(* The two-step all-to-all exchange on a grid of PEs: first along the      *)
(* columns to the row of the receiver, then along the rows. A PE only      *)
(* knows the counts of its own messages; counts are exchanged first, in    *)
(* the same two steps. PEs that have no partner in every row (virtual      *)
(* members of a column) only send in the first step.                       *)
(*                                                                         *)
(* Every PE proceeds on its own: an exchange within a column or row        *)
(* happens once all its members have reached it.                           *)
(* Message j from s to d is <<s, d, j>>; MaxLen bounds the lengths, which  *)
(* are chosen by Pattern.                                                  *)
(* Variant "RankOrder": received messages are attributed to PEs 0, 1, ...  *)
(***************************************************************************)
EXTENDS GridTopology
CONSTANTS Sizes, Patterns, Variant
VARIABLES T, len, phase, cnt1, buf1, got, labels
vars == <<T, len, phase, cnt1, buf1, got, labels>>

\* number of messages from s to d
Count(pat, size, s, d) ==
  CASE pat = "none" -> 0
    [] pat = "one" -> 1
    [] pat = "mixed" -> Mod(3 * s + 5 * d + s * d, 3)
    [] pat = "shift" -> IF d = Mod(s + 1, size) THEN 2 ELSE 0
    [] pat = "root" -> IF d = 0 THEN 1 + Mod(s, 2) ELSE 0
    [] OTHER -> IF s = size - 1 THEN Mod(d, 3) ELSE 0
PEs == 0 .. T.size - 1
RowMembers(p) == InRow(T, T.row[p + 1])
ColMembers(p) == InCol(T, T.vcol[p + 1])
Cat(k, F(_)) == FoldLeft(LAMBDA a, i : a \o F(i), <<>>, [i \in 1 .. k |-> i])
Msgs(s, d) == [j \in 1 .. len[s + 1][d + 1] |-> <<s, d, j>>]
Take(q, from, n) == SubSeq(q, from + 1, from + n)

Init == /\ \E size \in Sizes : \E t \in {Topology(size)} : T = t
        /\ \E pat \in Patterns : len = [s \in 1 .. T.size |-> <<>> \o [d \in 1 .. T.size |-> Count(pat, T.size, s - 1, d - 1)]]
        /\ phase = [i \in 1 .. T.size |-> 0]
        /\ cnt1 = [i \in 1 .. T.size |-> <<>>] /\ buf1 = [i \in 1 .. T.size |-> <<>>]
        /\ got = [i \in 1 .. T.size |-> <<>>] /\ labels = [i \in 1 .. T.size |-> <<>>]

Ready(S, ph) == \A i \in 1 .. Len(S) : phase[S[i] + 1] = ph
Advance(S) == phase' = [i \in DOMAIN phase |-> IF (i - 1) \in ToSet(S) THEN phase[i] + 1 ELSE phase[i]]
\* what the w-th member (row w) of a column receives from the i-th member
CountsFrom(q, i, w) == LET row == InRow(T, w - 1) IN [j \in 1 .. Len(row) |-> len[q[i] + 1][row[j] + 1]]
DataFrom(q, i, w) == LET row == InRow(T, w - 1) IN Cat(Len(row), LAMBDA j : Msgs(q[i], row[j]))
\* step 1: within column c
Column(c) ==
  \E q \in {InCol(T, c)} :
  /\ Ready(q, 0) /\ Advance(q)
  /\ cnt1' = [p \in DOMAIN cnt1 |-> IF (p - 1) \in ToSet(q) /\ (Regular(T, p - 1))
                THEN [i \in 1 .. Len(q) |-> CountsFrom(q, i, T.row[p] + 1)] ELSE cnt1[p]]
  /\ buf1' = [p \in DOMAIN buf1 |-> IF (p - 1) \in ToSet(q) /\ (Regular(T, p - 1))
                THEN Cat(Len(q), LAMBDA i : DataFrom(q, i, T.row[p] + 1)) ELSE buf1[p]]
  /\ UNCHANGED <<T, len, got, labels>>
\* step 2: within row w. PE p forwards, to the j-th PE of its row, the j-th part of what came from each
\* member of its column, and the numbers of messages of these parts
PartStart(p, i, j) == \* where the part from column member i for the j-th PE of the row starts in buf1[p]
  SumRange(1, i - 1, LAMBDA a : SumSeq(cnt1[p + 1][a])) + SumRange(1, j - 1, LAMBDA b : cnt1[p + 1][i][b])
SubCounts(p, j) == IF Regular(T, p) THEN [i \in 1 .. Len(cnt1[p + 1]) |-> cnt1[p + 1][i][j]] ELSE <<>>
SubData(p, j) == Cat(Len(cnt1[p + 1]), LAMBDA i : Take(buf1[p + 1], PartStart(p, i, j), cnt1[p + 1][i][j]))
\* the receiver walks through the columns and their members, taking as many messages as announced
Walk(counts, data) ==
  FoldLeft(LAMBDA a, i : [at |-> a.at + counts[i], out |-> Append(a.out, Take(data, a.at, counts[i]))],
           [at |-> 0, out |-> <<>>], [i \in 1 .. Len(counts) |-> i]).out
Row(w) ==
  \E q \in {InRow(T, w)} :
  /\ Ready(q, 1) /\ Advance(q)
  /\ labels' = [p \in DOMAIN labels |-> IF (p - 1) \in ToSet(q)
       THEN IF Variant = "RankOrder" THEN [i \in 1 .. T.size |-> i - 1] ELSE T.ve ELSE labels[p]]
  /\ got' = [p \in DOMAIN got |-> IF (p - 1) \in ToSet(q)
       THEN LET j == ColIdx(T, p - 1) + 1
                cs == Cat(Len(q), LAMBDA i : SubCounts(q[i], j))
                ds == Cat(Len(q), LAMBDA i : SubData(q[i], j))
            IN Walk(cs, ds)
       ELSE got[p]]
  /\ UNCHANGED <<T, len, cnt1, buf1>>
StepColumn == \E c \in 0 .. T.fullcols - 1 : Column(c)
StepRow == \E w \in 0 .. T.rows - 1 : Row(w)
Next == StepColumn \/ StepRow
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every PE gets every other PE's messages for it, once, in order, with the sender's number
Delivered == \A d \in PEs : phase[d + 1] = 2 =>
  /\ Len(got[d + 1]) = T.size
  /\ { labels[d + 1][i] : i \in 1 .. T.size } = PEs
  /\ \A i \in 1 .. T.size : got[d + 1][i] = Msgs(labels[d + 1][i], d)
TopologySound == Sound(T)
Ends == <>(\A d \in PEs : phase[d + 1] = 2)
=============================================================================
