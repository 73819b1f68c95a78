-------------------------- MODULE ContainersTrace --------------------------
(***************************************************************************)
(* Sequential meaning of the containers: maps are sets of <<key, value>>   *)
(* (d: value of keys that were only looked up), markers are sets per       *)
(* marker, queues, arrays and vectors are sequences; what concurrent       *)
(* containers return is compared with the sum over / union of all calls.   *)
(***************************************************************************)
EXTENDS Graphs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, old, d, type
vars == <<l, st, old, d, type>>
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.ev = e /\ l' = l + 1
TInit == l = 1 /\ st = {} /\ old = <<>> /\ d = 0 /\ type = ""

New == /\ Is("new") /\ type' = R.type /\ d' = R.d /\ old' = <<>>
       /\ st' = CASE R.type = "map" -> {}
                  [] R.type = "set" -> [i \in 1 .. R.markers |-> {}]
                  [] R.type = "seq" -> R.init

\* maps
AtKey(m, k) == { p \in m : p[1] = k }
Val(m, k) == LET S == AtKey(m, k) IN IF S = {} THEN d ELSE (CHOOSE p \in S : TRUE)[2]
Put(m, k, v) == (m \ AtKey(m, k)) \union {<<k, v>>}
RECURSIVE PutAll(_, _, _)
PutAll(m, ps, i) == IF i > Len(ps) THEN m ELSE PutAll(Put(m, ps[i][1], Val(m, ps[i][1]) + ps[i][2]), ps, i + 1)
MapAfter(r) ==
  CASE r.op = "add" -> Put(st, r.key, Val(st, r.key) + r.val)
    [] r.op = "dec" -> IF Val(st, r.key) = r.val THEN st \ AtKey(st, r.key) ELSE Put(st, r.key, Val(st, r.key) - r.val)
    [] r.op = "set" -> Put(st, r.key, r.val)
    [] r.op = "touch" -> Put(st, r.key, Val(st, r.key))
    [] r.op = "insert" -> IF AtKey(st, r.key) = {} THEN Put(st, r.key, r.val) ELSE st
    [] r.op = "remove" -> st \ AtKey(st, r.key)
    [] r.op \in {"clear", "renew"} -> {}
    [] r.op \in {"move", "look"} -> st
    [] r.op = "bulk" -> { p : p \in ToSet(r.pairs) }   \* many distinct keys into an empty map
    [] r.op = "adds" -> PutAll(st, r.pairs, 1)
MapSeen(r, m) ==
  /\ r.size = Cardinality(m)
  /\ \A i \in DOMAIN r.probe : (r.probe[i][2] = 1) = (AtKey(m, r.probe[i][1]) # {})
  /\ \A i \in DOMAIN r.gets : r.gets[i][2] = Val(m, r.gets[i][1])
  /\ \A i \in DOMAIN r.all : ToSet(r.all[i]) = m /\ Len(r.all[i]) = Cardinality(m)
  /\ (r.op = "add" /\ r.new >= 0 => (r.new = 1) = (AtKey(st, r.key) = {}))
  /\ (r.op = "dec" => AtKey(st, r.key) # {} /\ Val(st, r.key) >= r.val /\ (r.new = 1) = (AtKey(m, r.key) = {}))
  /\ (r.op = "bulk" => st = {})
MapOp == /\ Is("map") /\ type = "map" /\ UNCHANGED <<type, d, old>>
         /\ \E m \in {MapAfter(R)} : st' = m /\ Holds(MapSeen(R, m))

\* markers
SetAfter(r) == CASE r.op = "set" -> [i \in 1 .. Len(st) |-> IF i = r.marker THEN st[i] \union {r.element} ELSE st[i]]
                 [] r.op = "reset" -> [i \in 1 .. Len(st) |-> {}]
                 [] r.op \in {"resize", "move", "look"} -> st
FirstFree(S, n) == LET F == { x \in 0 .. n : x \notin S } IN MinOf(F)
SetSeen(r, s) ==
  /\ \A i \in DOMAIN r.probe : (r.probe[i][3] = 1) = (r.probe[i][1] \in s[r.probe[i][2]])
  /\ r.capacity = r.n
  /\ \A i \in DOMAIN r.first : r.first[i] = FirstFree(s[i], r.n)
SetOp == /\ Is("mark") /\ type = "set" /\ UNCHANGED <<type, d, old>>
         /\ \E s \in {SetAfter(R)} : st' = s /\ Holds(SetSeen(R, s))

\* sequences
Fill(n, v) == <<>> \o [i \in 1 .. n |-> v]
SeqAfter(r) ==
  CASE r.op = "pushback" -> Append(st, r.val)
    [] r.op = "pushfront" -> <<r.val>> \o st
    [] r.op = "popback" -> SubSeq(st, 1, Len(st) - 1)
    [] r.op = "popfront" -> SubSeq(st, 2, Len(st))
    [] r.op \in {"clear", "free"} -> <<>>
    [] r.op = "set" -> [st EXCEPT ![r.pos + 1] = r.val]
    [] r.op = "fill" -> Fill(r.n, r.val)
    [] r.op = "assign" -> <<>> \o [i \in 1 .. Len(st) |-> IF i <= r.n THEN r.val ELSE st[i]]
    [] r.op = "resize" -> IF r.n <= Len(st) THEN SubSeq(st, 1, r.n) ELSE st \o Fill(r.n - Len(st), r.val)
    [] r.op = "load" -> r.vals
    [] r.op = "cut" -> SubSeq(st, 1, r.n)
    [] r.op = "uncut" -> st \o SubSeq(old, Len(st) + 1, Len(old))
    [] r.op = "insert" -> SubSeq(st, 1, r.pos) \o <<r.val>> \o SubSeq(st, r.pos + 1, Len(st))
    [] r.op = "erase" -> SubSeq(st, 1, r.pos) \o SubSeq(st, r.pos + 2, Len(st))
    [] r.op \in {"move", "look", "equal"} -> st
    [] r.op = "sort" -> r.got
Perm(a, b) == Len(a) = Len(b) /\ \A x \in ToSet(a) \union ToSet(b) :
                Cardinality({ i \in 1 .. Len(a) : a[i] = x }) = Cardinality({ i \in 1 .. Len(b) : b[i] = x })
SeqSeen(r, s) ==
  /\ r.size = Len(s) /\ (r.empty = 1) = (s = <<>>)
  /\ r.got = s /\ r.it = s
  /\ \A i \in DOMAIN r.back : r.back[i] = Reverse(s)
  /\ \A i \in DOMAIN r.ends : s # <<>> /\ r.ends[i] = <<s[1], s[Len(s)]>>
  /\ (r.op = "equal" => (r.equal = 1) = (r.vals = s))
  /\ (r.op = "sort" => Perm(s, st) /\ \A i \in 2 .. Len(s) : s[i - 1] <= s[i])
SeqOp == /\ Is("seq") /\ type = "seq" /\ UNCHANGED <<type, d>>
         /\ old' = (IF R.op = "cut" THEN st ELSE IF R.op = "uncut" THEN <<>> ELSE old)
         /\ \E s \in {SeqAfter(R)} : st' = s /\ Holds(SeqSeen(R, s))

\* a shared array filled by several threads: <<position, amount>> of all calls; what is found; what is left
SumAt(ps, k) == SumSeq([i \in 1 .. Len(ps) |-> IF ps[i][1] = k THEN ps[i][2] ELSE 0])
Shared == /\ Is("shared") /\ UNCHANGED <<type, d, old, st>>
          /\ Holds(LET K == { R.adds[i][1] : i \in DOMAIN R.adds } IN
                   /\ ToSet(R.found) = { <<k, SumAt(R.adds, k)>> : k \in K }
                   /\ Len(R.found) = Cardinality(K)
                   /\ R.again = <<>> /\ \A i \in DOMAIN R.left : R.left[i] = 0
                   /\ Len(R.left) = R.n)
\* elements appended by threads after marks: runs of consecutive values behind every mark
List == /\ Is("list") /\ UNCHANGED <<type, d, old, st>>
        /\ Holds(/\ Len(R.marks) = Len(R.keys)
                 /\ { R.marks[i][1] : i \in DOMAIN R.marks } = { R.keys[i][1] : i \in DOMAIN R.keys }
                 /\ \A i \in DOMAIN R.marks :
                      \E j \in DOMAIN R.keys :
                        /\ R.keys[j][1] = R.marks[i][1]
                        /\ SubSeq(R.marks[i], 2, Len(R.marks[i])) =
                             IF R.keys[j][3] = 0 THEN <<>> ELSE <<R.keys[j][2], R.keys[j][3]>>)
\* tickets: <<ticket, delta, value>>, the value is the sum of the deltas of all earlier tickets
Circular == /\ Is("circular") /\ UNCHANGED <<type, d, old, st>>
            /\ Holds(LET T == R.calls
                         n == Len(T)
                         Of(t) == T[CHOOSE i \in 1 .. n : T[i][1] = t]
                         P[t \in 0 .. n] == IF t = 0 THEN 0 ELSE P[t - 1] + Of(t - 1)[2]
                     IN /\ { T[i][1] : i \in 1 .. n } = 0 .. n - 1
                        /\ \A i \in 1 .. n : T[i][3] = P[T[i][1]])
TNext == New \/ MapOp \/ SetOp \/ SeqOp \/ Shared \/ List \/ Circular
============================================================================
