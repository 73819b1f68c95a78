---------------------------- MODULE GridTopology ----------------------------
(***************************************************************************)
(* Arranging `size` PEs in a two-dimensional grid for all-to-all           *)
(* exchanges. A topology is a record                                       *)
(*   [size, rows, fullcols, row, vcol, ve]                                 *)
(* with the row and the virtual column of every PE (position PE+1), and    *)
(* the PEs of the virtual columns one column after the other (ve).         *)
(* Sound(T) is everything the two-step exchange relies on; the topology    *)
(* of the code and the one defined here have to satisfy it.                *)
(***************************************************************************)
EXTENDS Graphs

Isqrt(n) == MaxOf({ i \in 0 .. n : i * i <= n })

\* rows = floor(sqrt(size)); the first `partial` rows have one more PE, which joins, as a "virtual"
\* member, the column with the number of its row
Topology(size) ==
  LET rows == Isqrt(size)
      full == size \div rows
      partial == size - rows * full
      cols == IF partial = 0 THEN full ELSE full + 1
      RowOf(p) == IF p < partial * cols THEN p \div cols ELSE partial + (p - partial * cols) \div full
      ColOf(p) == IF p < partial * cols THEN p % cols ELSE (p - partial * cols) % full
      VCol(p) == IF ColOf(p) < full THEN ColOf(p) ELSE RowOf(p)
      row == [i \in 1 .. size |-> RowOf(i - 1)]
      vcol == [i \in 1 .. size |-> VCol(i - 1)]
      Member(c, w) == CHOOSE p \in 0 .. size - 1 : row[p + 1] = w /\ vcol[p + 1] = c /\ ColOf(p) < full
      Column(c) == [i \in 1 .. rows |-> Member(c, i - 1)] \o (IF c < partial THEN <<c * cols + full>> ELSE <<>>)
  IN [size |-> size, rows |-> rows, fullcols |-> full, row |-> row, vcol |-> vcol,
      ve |-> FoldLeft(LAMBDA a, c : a \o Column(c - 1), <<>>, [c \in 1 .. full |-> c])]

\* PEs of a row / virtual column in rank order of the row/column communicators
InRow(T, w) == SelectSeq([i \in 1 .. T.size |-> i - 1], LAMBDA p : T.row[p + 1] = w)
\* regular members come first, ordered by rank; then those that are only assigned to the column
ColIdx(T, p) == Cardinality({ q \in 0 .. T.size - 1 : T.row[q + 1] = T.row[p + 1] /\ q < p })
Regular(T, p) == T.vcol[p + 1] = ColIdx(T, p)
InCol(T, c) == SelectSeq([i \in 1 .. T.size |-> i - 1], LAMBDA p : T.vcol[p + 1] = c /\ Regular(T, p)) \o
               SelectSeq([i \in 1 .. T.size |-> i - 1], LAMBDA p : T.vcol[p + 1] = c /\ ~Regular(T, p))

Sound(T) ==
  /\ Len(T.row) = T.size /\ Len(T.vcol) = T.size
  \* rows are intervals of PEs, in order
  /\ \A i \in 1 .. T.size : T.row[i] \in 0 .. T.rows - 1
  /\ \A i \in 1 .. T.size - 1 : T.row[i + 1] \in {T.row[i], T.row[i] + 1}
  /\ T.row[1] = 0 /\ T.row[T.size] = T.rows - 1
  \* every column has exactly one regular PE in every row, the w-th being in row w
  /\ \A c \in 0 .. T.fullcols - 1 :
       LET q == InCol(T, c) IN
       /\ Len(q) >= T.rows
       /\ \A w \in 1 .. T.rows : Regular(T, q[w]) /\ T.row[q[w] + 1] = w - 1
       /\ \A w \in T.rows + 1 .. Len(q) : ~Regular(T, q[w])
  /\ \A i \in 1 .. T.size : T.vcol[i] \in 0 .. T.fullcols - 1
  \* messages arrive in the order of the sending PE's virtual column and rank in that column
  /\ T.ve = FoldLeft(LAMBDA a, c : a \o InCol(T, c - 1), <<>>, [c \in 1 .. T.fullcols |-> c])
=============================================================================
