--------------------------- MODULE PriorityTrace ---------------------------
(***************************************************************************)
(* Priority queues are sets of <<id, key>> (several per object for         *)
(* forests); an operation changes one set, the top is an entry with an     *)
(* extreme key. Keys are ranks: larger rank = larger key of any type.      *)
(* kind: "max", "min" or "minmax"; queries about ids address all queues.   *)
(***************************************************************************)
EXTENDS Graphs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, q, kind
vars == <<l, q, kind>>
R == Trace[l]
TInit == l = 1 /\ q = <<>> /\ kind = ""

In(S, id) == { e \in S : e[1] = id }
Upd(f, h, S) == [i \in 1 .. Len(f) |-> IF i = h THEN S ELSE f[i]]
AllIds(f) == UNION { { e[1] : e \in f[i] } : i \in 1 .. Len(f) }
Top(S, t, max) == IF S = {} THEN t = <<>> ELSE /\ Len(t) = 2 /\ t \in S
                                               /\ \A e \in S : IF max THEN e[2] <= t[2] ELSE e[2] >= t[2]
After(r) ==  \* new contents; <<>> if the step is impossible
  LET S == q[r.h] IN
  CASE r.op = "push" -> IF r.id \in AllIds(q) THEN <<>> ELSE Upd(q, r.h, S \union {<<r.id, r.key>>})
    [] r.op \in {"change", "increase", "decrease"} ->
         IF In(S, r.id) = {} THEN <<>> ELSE Upd(q, r.h, (S \ In(S, r.id)) \union {<<r.id, r.key>>})
    [] r.op = "put" -> Upd(q, r.h, (S \ In(S, r.id)) \union {<<r.id, r.key>>})
    [] r.op = "remove" -> IF In(S, r.id) = {} THEN <<>> ELSE Upd(q, r.h, S \ In(S, r.id))
    [] r.op \in {"pop", "popmin", "popmax"} ->  \* r.top: what was on top before
         IF Top(S, r.top, r.op = "popmax" \/ (r.op = "pop" /\ kind = "max")) /\ S # {} THEN Upd(q, r.h, S \ {r.top}) ELSE <<>>
    [] r.op = "clear" -> Upd(q, r.h, {})
    [] r.op = "clearall" -> [i \in 1 .. Len(q) |-> {}]
    [] r.op = "init" -> [i \in 1 .. r.heaps |-> {}]
    [] r.op = "move" -> q
Seen(r, f) ==
  /\ r.total = LET RECURSIVE s(_) s(i) == IF i = 0 THEN 0 ELSE Cardinality(f[i]) + s(i - 1) IN s(Len(f))
  /\ Len(r.sizes) = Len(f)
  /\ \A i \in 1 .. Len(f) : /\ r.sizes[i] = Cardinality(f[i])
                            /\ (kind # "min" => Top(f[i], r.max[i], TRUE))
                            /\ (kind # "max" => Top(f[i], r.min[i], FALSE))
  /\ \A i \in DOMAIN r.probe : (r.probe[i][2] = 1) = (r.probe[i][1] \in AllIds(f))
  /\ \A i \in DOMAIN r.keys : <<r.keys[i][2], r.keys[i][3]>> \in f[r.keys[i][1]]
  /\ \A i \in DOMAIN r.elements : /\ ToSet(r.elements[i][2]) = f[r.elements[i][1]]
                                  /\ Len(r.elements[i][2]) = Cardinality(f[r.elements[i][1]])
New == R.ev = "new" /\ kind' = R.kind /\ q' = [i \in 1 .. R.heaps |-> {}]
Op == /\ R.ev = "op" /\ UNCHANGED kind
      /\ \E f \in {After(R)} : f # <<>> /\ q' = f /\ Holds(Seen(R, f))
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (New \/ Op)
============================================================================
