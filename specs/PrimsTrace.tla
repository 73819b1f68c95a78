----------------------------- MODULE PrimsTrace -----------------------------
(***************************************************************************)
(* Results of the parallel primitives and of the integer arithmetic against *)
(* their definitions. 64-bit numbers appear as sets of bits (positions),    *)
(* floating-point numbers as ranks in the order of the values used.         *)
(***************************************************************************)
EXTENDS Graphs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
R == Trace[l]
TInit == l = 1
Is(e) == l <= Len(Trace) /\ R.ev = e /\ l' = l + 1
\* two aliases of operators that are needed with other names here
All(q, P(_)) == \A i \in 1 .. Len(q) : P(i)
IsMax(q, m) == /\ \E i \in 1 .. Len(q) : q[i] = m
               /\ \A i \in 1 .. Len(q) : q[i] <= m

Accumulate == Is("acc") /\ Holds(\E s \in {R.init + SumSeq(R.v)} : \A i \in 1 .. Len(R.a) : R.a[i] = s + (R.plus[i] * Len(R.v)))
Maximum == Is("max") /\ Holds(\A i \in 1 .. Len(R.m) : IsMax(R.v, R.m[i]))
Difference == Is("diff") /\ Holds(\E d \in {[i \in 1 .. Len(R.v) - 1 |-> R.v[i + 1] - R.v[i]]} :
                                     \A i \in 1 .. Len(R.m) : IF Len(R.v) = 1 THEN R.m[i] = 0 ELSE IsMax(d, R.m[i]))
PrefixSum == Is("scan") /\ Holds(/\ Len(R.o) = Len(R.v)
                                 /\ \A i \in 1 .. Len(R.v) : R.o[i] = (IF i = 1 THEN 0 ELSE R.o[i - 1]) + R.v[i])
\* AlignedPrefixSum.tla: Placed, Compact
Aligned == /\ Is("align")
           /\ Holds(IF R.v = <<>> THEN R.total = 0
                    ELSE /\ Len(R.o) = Len(R.v) /\ R.o[1] = 0
                         /\ \A i \in 1 .. Len(R.v) : R.al[i] > 0 => Mod(R.o[i], R.al[i]) = 0
                         /\ \A i \in 1 .. Len(R.v) - 1 : (R.o[i + 1] - (R.o[i] + R.v[i])) \in 0 .. 14
                         /\ R.total = R.o[Len(R.v)] + R.v[Len(R.v)])
\* Ranges.tla: every element of every buffer once, with the index of its buffer
Chunks == Is("chunk") /\ Holds(/\ Len(R.hits) = Len(R.sizes) /\ R.foreign = 0
                               /\ \A b \in 1 .. Len(R.sizes) :
                                    /\ Len(R.hits[b]) = R.sizes[b]
                                    /\ \A j \in 1 .. R.sizes[b] : R.hits[b][j] = (IF R.withid THEN b ELSE 1))
Blocks == Is("detfor") /\ Holds(/\ R.ret = Len(R.ranges) /\ R.ret <= R.threads
                                /\ (R.to > R.from => R.ret >= 1)
                                /\ \A c \in 1 .. Len(R.ranges) :
                                     /\ R.ranges[c][1] = c - 1
                                     /\ R.ranges[c][2] = (IF c = 1 THEN R.from ELSE R.ranges[c - 1][3])
                                     /\ R.ranges[c][3] >= R.ranges[c][2]
                                /\ (R.ret > 0 => R.ranges[R.ret][3] = R.to))
Local == Is("local") /\ Holds(
  /\ Len(R.ranges) = R.size /\ R.ranges[1][1] = 0 /\ R.ranges[R.size][2] = R.n
  /\ \A r \in 1 .. R.size : /\ (r > 1 => R.ranges[r][1] = R.ranges[r - 1][2])
                            /\ (R.ranges[r][2] - R.ranges[r][1]) \in (R.n \div R.size) .. ((R.n + R.size - 1) \div R.size)
  /\ \A i \in 1 .. Len(R.owner) : LET x == R.owner[i] IN
       x[2] < R.size /\ R.ranges[x[2] + 1][1] <= x[1] /\ x[1] < R.ranges[x[2] + 1][2])
Find == Is("finddist") /\ Holds(\A i \in 1 .. Len(R.q) : LET r == R.q[i][2] + 1 IN
                                  r \in 1 .. Len(R.dist) - 1 /\ R.dist[r] <= R.q[i][1] /\ R.q[i][1] < R.dist[r + 1])
Cells == Is("ets") /\ Holds(/\ Len(R.out) = R.size
                            /\ \A c \in 1 .. R.size :
                                 R.out[c] = SumSeq([i \in 1 .. Len(R.w) |-> IF Mod(i - 1, R.size) = c - 1 THEN R.w[i] ELSE 0]))
Bits == /\ Is("bits")
        /\ Holds(LET S == ToSet(R.x)
                     T == MaxOf(S)
                     pow == Cardinality(S) = 1
                 IN IF S = {} THEN R.f2 = <<>> /\ R.c2 = <<0>> /\ R.bytes = 1 /\ ~R.pow /\ R.bucket = 0 /\ R.low = <<>>
                    ELSE /\ R.fl = T /\ R.cl = (IF pow THEN T ELSE T + 1)
                         /\ R.f2 = <<T>>
                         /\ (R.cl < R.width => R.c2 = <<R.cl>>)
                         /\ R.bytes = (T \div 8) + 1
                         /\ R.pow = pow
                         /\ R.bucket = T + 1 /\ R.low = <<T>>)
Mask == Is("mask") /\ Holds(Len(R.bits) = R.k /\ ToSet(R.bits) = 0 .. R.k - 1)
Divide == Is("div") /\ Holds(/\ R.more = (IF R.r = 0 THEN 0 ELSE 1)       \* div_ceil(q y + r, y) - q
                             /\ R.mod = (IF R.r = 0 THEN R.y ELSE R.r))
Distance == Is("absdiff") /\ Holds(R.d = Max2(R.x - R.y, R.y - R.x))
Square == Is("square") /\ Holds(R.answer = (R.d = 0))                     \* of s^2 + r with r = 0 (d = 0) or 0 < r <= 2 s (d = 1)
Halves == Is("split") /\ Holds(R.a + R.b = R.v /\ R.a - R.b \in {0, 1})
Grid == Is("grid") /\ Holds(R.pos = (R.row * R.cols) + R.col /\ R.back = <<R.row, R.col>>)
Summary == Is("mmm") /\ Holds(/\ IsMax(R.v, R.max) /\ IsMax([i \in 1 .. Len(R.v) |-> 0 - R.v[i]], 0 - R.min)
                              /\ R.sum = SumSeq(R.v))
\* smallest element such that at least the fraction num / den of the elements is not larger
Quantile == Is("perc") /\ Holds(R.result = R.v[Max2(1, (((R.num * Len(R.v)) + R.den) - 1) \div R.den)])
Index == Is("index") /\ Holds(\A i \in 1 .. Len(R.got) : R.lo <= R.got[i] /\ R.got[i] < R.hi)
Count(q, x) == Cardinality({ i \in 1 .. Len(q) : q[i] = x })
Shuffle == Is("shuffle") /\ Holds(Len(R.a) = Len(R.b) /\ \A x \in ToSet(R.a) \union ToSet(R.b) : Count(R.a, x) = Count(R.b, x))
Perm == Is("perm") /\ Holds(\A i \in 1 .. Len(R.p) : Len(R.p[i]) = R.size /\ ToSet(R.p[i]) = 0 .. R.size - 1)

TNext == \/ Accumulate \/ Maximum \/ Difference \/ PrefixSum \/ Aligned \/ Chunks \/ Blocks \/ Local \/ Find \/ Cells
         \/ Bits \/ Mask \/ Divide \/ Distance \/ Square \/ Halves \/ Grid \/ Summary \/ Quantile \/ Index \/ Shuffle \/ Perm
=============================================================================
