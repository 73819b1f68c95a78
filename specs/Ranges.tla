------------------------------- MODULE Ranges -------------------------------
(***************************************************************************)
(* Distribution of n elements to `size` workers (compute_local_range and    *)
(* its inverse), and the cursor of parallel::chunked_for: one task handles  *)
(* the elements b .. e - 1 of the concatenation of the buffers. The tasks   *)
(* of a loop are the local ranges of its workers.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, MaxSize, MaxBufs, MaxBuf, Variant
VARIABLES n, size, e,               \* ranges
          bufs, task, cur, off, buf, hits
rvars == <<n, size, e>>
cvars == <<bufs, task, cur, off, buf, hits>>
vars == <<n, size, e, bufs, task, cur, off, buf, hits>>
Mod(a, b) == a % b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

From(m, s, r) == (r * (m \div s)) + Min2(r, Mod(m, s))
To(m, s, r) == Min2(From(m, s, r) + (m \div s) + (IF r < Mod(m, s) THEN 1 ELSE 0), m)
Div0(a, b) == IF a >= 0 THEN a \div b ELSE 0 - ((0 - a) \div b)
Owner(m, s, x) ==
  IF m <= s THEN x
  ELSE LET c == m \div s
           rem == Mod(m, s)
           r0 == IF x < rem THEN 0 ELSE (x - rem) \div c   \* (x - rem wraps around if x < rem)
       IN IF x < rem \/ (Variant # "NoFirst" /\ r0 < rem) THEN x \div (c + 1) ELSE r0

Init == /\ n \in 0 .. MaxN /\ size \in 1 .. MaxSize /\ e = 0
        /\ bufs \in UNION { [1 .. k -> 0 .. MaxBuf] : k \in 0 .. MaxBufs }
        /\ (n > 3 => bufs = <<>>)                                  \* explore the two halves separately
        /\ task = 0 /\ cur = -1 /\ off = 0 /\ buf = 1
        /\ hits = [i \in 1 .. Len(bufs) |-> [j \in 1 .. bufs[i] |-> 0]]
\* next element of the distribution
Element == e < n /\ bufs = <<>> /\ e' = e + 1 /\ UNCHANGED <<n, size>> /\ UNCHANGED cvars

\* the cursor
T == Min2(size, Sum(bufs))                                         \* tasks
Begin == /\ n = 0 /\ cur = -1 /\ task < T
         /\ cur' = From(Sum(bufs), T, task) /\ off' = 0 /\ buf' = 1
         /\ UNCHANGED rvars /\ UNCHANGED <<bufs, task, hits>>
Find == /\ cur >= 0 /\ cur < To(Sum(bufs), T, task)
        /\ IF Variant = "SkipOne" THEN off + bufs[buf] <= cur /\ off = 0 ELSE off + bufs[buf] <= cur
        /\ off' = off + bufs[buf] /\ buf' = buf + 1
        /\ UNCHANGED rvars /\ UNCHANGED <<bufs, task, cur, hits>>
Visit == /\ cur >= 0 /\ cur < To(Sum(bufs), T, task)
         /\ \/ off + bufs[buf] > cur
            \/ Variant = "SkipOne" /\ off > 0
         /\ hits' = [hits EXCEPT ![buf] = [j \in 1 .. bufs[buf] |-> IF j = cur - off + 1 THEN hits[buf][j] + 1 ELSE hits[buf][j]]]
         /\ cur' = cur + 1
         /\ UNCHANGED rvars /\ UNCHANGED <<bufs, task, off, buf>>
End == /\ cur >= 0 /\ cur = To(Sum(bufs), T, task) /\ cur' = -1 /\ task' = task + 1 /\ off' = 0 /\ buf' = 1
       /\ UNCHANGED rvars /\ UNCHANGED <<bufs, hits>>
Next == Element \/ Begin \/ Find \/ Visit \/ End

\* ---- properties
Partition == /\ From(n, size, 0) = 0 /\ To(n, size, size - 1) = n
             /\ \A r \in 0 .. (size - 2) : To(n, size, r) = From(n, size, r + 1)
Balanced == \A r \in 0 .. (size - 1) : To(n, size, r) - From(n, size, r) \in (n \div size) .. (n \div size) + (IF Mod(n, size) = 0 THEN 0 ELSE 1)
Inverse == e < n => LET r == Owner(n, size, e) IN From(n, size, r) <= e /\ e < To(n, size, r)
InBounds == buf <= Len(bufs) \/ cur = -1 \/ cur >= To(Sum(bufs), T, task)
Once == \A i \in 1 .. Len(bufs) : \A j \in 1 .. bufs[i] : hits[i][j] <= 1
All == (n = 0 /\ task = T) => \A i \in 1 .. Len(bufs) : \A j \in 1 .. bufs[i] : hits[i][j] = 1
=============================================================================
