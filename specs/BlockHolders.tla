---------------------------- MODULE BlockHolders ----------------------------
(***************************************************************************)
(* Which PEs get which block-induced subgraphs (from here on everything    *)
(* counts from 0): with more blocks than PEs, every PE gets an interval of *)
(* blocks; otherwise an interval of PEs gets a copy of every block.        *)
(* HolderSets: what scattering and copying back rely on.                   *)
(***************************************************************************)
EXTENDS Graphs
Even(cnt) == \A i, j \in 1 .. Len(cnt) : cnt[i] - cnt[j] \in {-1, 0, 1}
Intervals(first, end, cnt, total) ==
  /\ Even(cnt) /\ first[1] = 0 /\ end[Len(end)] = total
  /\ \A i \in 1 .. Len(cnt) : cnt[i] = end[i] - first[i] /\ (i < Len(cnt) => end[i] = first[i + 1])
\* r: first/end/number of blocks of every PE (fb, ib, nb), and of PEs of every block (fp, ip, np)
HolderSets(r, k, P) ==
  /\ Len(r.fb) = P /\ Len(r.fp) = k
  /\ IF P <= k THEN Intervals(r.fb, r.ib, r.nb, k) ELSE Intervals(r.fp, r.ip, r.np, P)
  /\ \A pe \in 1 .. P, b \in 1 .. k :
       (r.fb[pe] <= b - 1 /\ b - 1 < r.ib[pe]) = (r.fp[b] <= pe - 1 /\ pe - 1 < r.ip[b])
  /\ \A pe \in 1 .. P : r.nb[pe] = r.ib[pe] - r.fb[pe] /\ r.nb[pe] >= 1
  /\ \A b \in 1 .. k : r.np[b] = r.ip[b] - r.fp[b] /\ r.np[b] >= 1

\* item i's share of n items given to k, the first Mod(n, k) of which get one more: first item, number
First(n, k, i) == i * (n \div k) + Min2(i, Mod(n, k))
Count(n, k, i) == n \div k + (IF i < Mod(n, k) THEN 1 ELSE 0)
\* who gets item x
Owner(n, k, x) == LET big == n \div k + 1
                      rem == Mod(n, k) IN
                  IF x < rem * big THEN x \div big ELSE rem + (x - rem * big) \div (n \div k)
Holders(k, P) ==
  LET F(n, m) == [i \in 1 .. m |-> First(n, m, i - 1)]
      C(n, m) == [i \in 1 .. m |-> Count(n, m, i - 1)]
      O(n, m) == [x \in 1 .. n |-> Owner(n, m, x - 1)]
      One(n) == [x \in 1 .. n |-> 1]
      Plus(a, b) == [i \in 1 .. Len(a) |-> a[i] + b[i]] IN
  IF P <= k THEN [fb |-> F(k, P), nb |-> C(k, P), ib |-> Plus(F(k, P), C(k, P)), fp |-> O(k, P), np |-> One(k), ip |-> Plus(O(k, P), One(k))]
  ELSE [fp |-> F(P, k), np |-> C(P, k), ip |-> Plus(F(P, k), C(P, k)), fb |-> O(P, k), nb |-> One(P), ib |-> Plus(O(P, k), One(P))]
=============================================================================
