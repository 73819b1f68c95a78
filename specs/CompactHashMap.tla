--------------------------- MODULE CompactHashMap ---------------------------
(***************************************************************************)
(* Linear probing in a table whose size is a power of two and that may     *)
(* become full (compact_hash_map.h): entries whose value would drop to     *)
(* zero are erased by moving displaced entries back into the hole. The gain*)
(* caches keep one such table per vertex. All histories of at most         *)
(* MaxTotal units of weight over all keys.                                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Size, Keys, MaxTotal, Variant
ASSUME Variant \in {"ok", "NoRepair", "AlwaysMove", "NoWrap"}
Empty == [key |-> 0, val |-> 0]
H(x) == x % Size
VARIABLES tab, ref
vars == <<tab, ref>>

\* position of the key, or of the first free cell, or the last cell looked at
RECURSIVE Probe(_, _, _, _)
Probe(t, key, pos, left) == IF left = 1 \/ t[pos].val = 0 \/ t[pos].key = key THEN pos
                            ELSE Probe(t, key, H(pos + 1), left - 1)
Find(t, key) == Probe(t, key, H(key), Size)
Get(t, key) == LET e == t[Find(t, key)] IN IF e.key = key THEN e.val ELSE 0
B(b) == IF b THEN 1 ELSE 0
Movable(key, from, to) == IF Variant = "AlwaysMove" THEN TRUE
                          ELSE IF Variant = "NoWrap" THEN H(key) <= to
                          ELSE B(from < H(key)) + B(H(key) <= to) + B(from > to) >= 2
RECURSIVE Repair(_, _, _, _)
Repair(t, start, hole, pos) ==
  LET cur == H(pos + 1)
      e == t[cur]
      mv == e.val = 0 \/ Movable(e.key, cur, hole)
      t2 == IF mv THEN [t EXCEPT ![hole] = e] ELSE t
      h2 == IF mv THEN cur ELSE hole
  IN IF e.val # 0 /\ cur # start THEN Repair(t2, start, h2, cur) ELSE [t2 EXCEPT ![h2] = Empty]
Dec(t, key, v) == LET p == Find(t, key)
                  IN IF t[p].val > v THEN [t EXCEPT ![p].val = @ - v]
                     ELSE IF Variant = "NoRepair" THEN [t EXCEPT ![p] = Empty] ELSE Repair(t, p, p, p)
Inc(t, key, v) == LET p == Find(t, key) IN [t EXCEPT ![p] = [key |-> key, val |-> Get(t, key) + v]]

Used(r) == { x \in Keys : r[x] > 0 }
Total(r) == LET RECURSIVE s(_) s(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN r[x] + s(S \ {x}) IN s(Keys)
Init == tab = [i \in 0 .. Size - 1 |-> Empty] /\ ref = [x \in Keys |-> 0]
Increase == \E x \in Keys, v \in 1 .. MaxTotal :
              /\ Total(ref) + v <= MaxTotal /\ Cardinality(Used(ref) \union {x}) <= Size
              /\ tab' = Inc(tab, x, v) /\ ref' = [ref EXCEPT ![x] = @ + v]
Decrease == \E x \in Used(ref) : \E v \in 1 .. ref[x] : tab' = Dec(tab, x, v) /\ ref' = [ref EXCEPT ![x] = @ - v]
Next == Increase \/ Decrease
Spec == Init /\ [][Next]_vars
Faithful == \A x \in Keys : Get(tab, x) = ref[x]
NoDuplicates == Cardinality({ i \in 0 .. Size - 1 : tab[i].val # 0 }) = Cardinality(Used(ref))
=============================================================================
