----------------------------- MODULE SparseSet -----------------------------
(***************************************************************************)
(* Map over 0 .. N-1 with constant time clearing (sparse_map.h): sparse[k] *)
(* is a position in dense, valid if below the size and the entry there has *)
(* key k. Nothing is erased when the map is cleared.                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS N, Vals, Variant
ASSUME Variant \in {"ok", "NoRepoint", "NoKeyCheck", "NoBound"}
VARIABLES sparse, dense, size, ref
vars == <<sparse, dense, size, ref>>
K == 0 .. N - 1
Init == sparse = [k \in K |-> 0] /\ dense = [i \in K |-> [key |-> 0, val |-> 0]] /\ size = 0 /\ ref = [k \in K |-> 0]
Has(k) == (Variant = "NoBound" \/ sparse[k] < size) /\ (Variant = "NoKeyCheck" \/ dense[sparse[k]].key = k)
Get(k) == IF Has(k) THEN dense[sparse[k]].val ELSE 0
Set == \E k \in K, v \in Vals :
         /\ ref' = [ref EXCEPT ![k] = v]
         /\ IF Has(k) THEN dense' = [dense EXCEPT ![sparse[k]].val = v] /\ UNCHANGED <<sparse, size>>
            ELSE /\ size < N /\ dense' = [dense EXCEPT ![size] = [key |-> k, val |-> v]]
                 /\ sparse' = [sparse EXCEPT ![k] = size] /\ size' = size + 1
Remove == \E k \in K :
            /\ Has(k) /\ ref' = [ref EXCEPT ![k] = 0]
            /\ LET i == sparse[k]
                   d == [dense EXCEPT ![i] = dense[size - 1], ![size - 1] = dense[i]]
               IN /\ dense' = d /\ size' = size - 1
                  /\ sparse' = IF Variant = "NoRepoint" THEN sparse ELSE [sparse EXCEPT ![d[i].key] = i]
Clear == size > 0 /\ size' = 0 /\ ref' = [k \in K |-> 0] /\ UNCHANGED <<sparse, dense>>
Next == Set \/ Remove \/ Clear
Faithful == \A k \in K : Get(k) = ref[k] /\ (Has(k) <=> ref[k] > 0)
SizeOK == size = Cardinality({ k \in K : ref[k] > 0 })
============================================================================
