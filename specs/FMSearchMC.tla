----------------------------- MODULE FMSearchMC -----------------------------
(* Instances of FMSearch. *)
EXTENDS FMSearch
V5 == 1 .. 5
E5 == {{1, 2}, {2, 3}, {3, 4}, {4, 5}, {1, 3}}
V4 == 1 .. 4
E4 == {{1, 2}, {2, 3}, {3, 4}}
Es == {{1, 2}, {2, 3}, {2, 4}}
Mixed == [v \in V |-> IF v = 2 THEN 2 ELSE 1]
=============================================================================
