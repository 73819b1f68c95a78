------------------------------ MODULE FlatMap ------------------------------
(***************************************************************************)
(* Open addressing with time stamps (dynamic_map.h): an entry is valid if  *)
(* its stamp is current, clearing advances the stamp, a table that would   *)
(* be more than half full is replaced by one of twice the size with stamp  *)
(* 1, into which the valid entries are moved. All hash functions.          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Keys, MaxVal, MaxStamp, MaxCap, Variant
ASSUME Variant \in {"ok", "OldStamp", "AllEntries", "NoRefind", "KeepSize"}
VARIABLES hash, cap, tab, stamp, size, ref
vars == <<hash, cap, tab, stamp, size, ref>>
Nil == [key |-> 0, val |-> 0, stamp |-> 0]
Fresh(c) == [i \in 0 .. c - 1 |-> Nil]
RECURSIVE Probe(_, _, _, _, _)
Probe(t, c, s, k, p) == IF t[p].stamp # s \/ t[p].key = k THEN p ELSE Probe(t, c, s, k, (p + 1) % c)
Find(t, c, s, k) == Probe(t, c, s, k, hash[k] % c)
Valid(t, s, p) == t[p].stamp = s
Has(k) == Valid(tab, stamp, Find(tab, cap, stamp, k))
Get(k) == IF Has(k) THEN tab[Find(tab, cap, stamp, k)].val ELSE 0

RECURSIVE Rehash(_, _, _)
Rehash(t, c, i) ==
  IF i = cap THEN t
  ELSE LET e == tab[i]
           move == CASE Variant = "OldStamp" -> e.stamp = 1
                     [] Variant = "AllEntries" -> e.stamp # 0
                     [] OTHER -> e.stamp = stamp
           p == Find(t, c, 1, e.key)
       IN Rehash(IF move THEN [t EXCEPT ![p] = [key |-> e.key, val |-> e.val, stamp |-> 1]] ELSE t, c, i + 1)

Init == hash \in [Keys -> 0 .. MaxCap - 1] /\ cap = 2 /\ tab = Fresh(2) /\ stamp = 1 /\ size = 0 /\ ref = [k \in Keys |-> 0]
\* [k] += 1: new keys start with 0
Existing == \E k \in Keys : /\ Has(k) /\ ref[k] < MaxVal
                            /\ tab' = [tab EXCEPT ![Find(tab, cap, stamp, k)].val = @ + 1]
                            /\ ref' = [ref EXCEPT ![k] = @ + 1] /\ UNCHANGED <<hash, cap, stamp, size>>
Insert == \E k \in Keys : /\ ~Has(k) /\ ref[k] < MaxVal /\ 2 * (size + 1) <= cap
                          /\ tab' = [tab EXCEPT ![Find(tab, cap, stamp, k)] = [key |-> k, val |-> 1, stamp |-> stamp]]
                          /\ size' = size + 1 /\ ref' = [ref EXCEPT ![k] = @ + 1] /\ UNCHANGED <<hash, cap, stamp>>
Grow == \E k \in Keys :
          /\ ~Has(k) /\ ref[k] < MaxVal /\ 2 * (size + 1) > cap /\ 2 * cap <= MaxCap
          /\ LET t == Rehash(Fresh(2 * cap), 2 * cap, 0)
                 p == IF Variant = "NoRefind" THEN Find(tab, cap, stamp, k) ELSE Find(t, 2 * cap, 1, k)
             IN tab' = [t EXCEPT ![p] = [key |-> k, val |-> 1, stamp |-> 1]]
          /\ cap' = 2 * cap /\ stamp' = 1 /\ size' = size + 1
          /\ ref' = [ref EXCEPT ![k] = @ + 1] /\ UNCHANGED hash
Clear == /\ size > 0 /\ stamp < MaxStamp /\ stamp' = stamp + 1
         /\ size' = (IF Variant = "KeepSize" THEN size ELSE 0)
         /\ ref' = [k \in Keys |-> 0] /\ UNCHANGED <<hash, cap, tab>>
Next == Existing \/ Insert \/ Grow \/ Clear
Faithful == \A k \in Keys : Get(k) = ref[k] /\ (Has(k) <=> ref[k] > 0)
SizeOK == size = Cardinality({ k \in Keys : ref[k] > 0 })
NoDuplicates == Cardinality({ i \in 0 .. cap - 1 : tab[i].stamp = stamp }) = size
============================================================================
