------------------------------ MODULE Quotient ------------------------------
(***************************************************************************)
(* Quotient graphs: what contracting a clustering has to produce.          *)
(***************************************************************************)
EXTENDS Graphs

IsMap(n, m, cn) == Len(m) = n /\ \A u \in 1 .. n : m[u] >= 0 /\ m[u] < cn
IsOrder(o, m) == Len(o) = m /\ (\A i \in 1 .. m : o[i] >= 1 /\ o[i] <= m) /\ Cardinality(ToSet(o)) = m

\* the edges of c are the sums of the edges of f between different images
SameEdges(f, c, m, o) ==
  LET step(a, i) ==
        LET x == m[f.s[i] + 1]  y == m[f.t[i] + 1]  w == EWt(f, i) IN
          IF ~a.ok \/ x = y THEN a
          ELSE IF a.j > 0 /\ c.s[a.j] = x /\ c.t[a.j] = y THEN [a EXCEPT !.sum = @ + w]
          ELSE IF (a.j = 0 \/ a.sum = EWt(c, a.j)) /\ a.j < M(c) /\ c.s[a.j + 1] = x /\ c.t[a.j + 1] = y
               THEN [ok |-> TRUE, j |-> a.j + 1, sum |-> w]
               ELSE [a EXCEPT !.ok = FALSE]
      r == FoldLeft(step, [ok |-> TRUE, j |-> 0, sum |-> 0], o)
  IN r.ok /\ r.j = M(c) /\ (r.j = 0 \/ r.sum = EWt(c, r.j))

\* c is the quotient of f by the mapping m of its vertices
IsQuotient(f, c, m, o) ==
  /\ IsMap(f.n, m, c.n)
  /\ IsOrder(o, M(f))
  /\ Len(c.vw) = c.n
  /\ (f.n > 0 => Cardinality(ToSet(m)) = c.n)           \* no coarse vertex without a fine one
  /\ BlockWeights(f, m, c.n) = <<>> \o c.vw
  /\ SameEdges(f, c, m, o)
=============================================================================
