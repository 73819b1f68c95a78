--------------------------- MODULE BlockHoldersMC ---------------------------
(* All numbers of blocks and PEs up to Largest. *)
EXTENDS BlockHolders
CONSTANT Largest
VARIABLES k, P
Init == k = 1 /\ P = 1
MoreBlocks == k < Largest /\ k' = k + 1 /\ UNCHANGED P
MorePEs == P < Largest /\ P' = P + 1 /\ UNCHANGED k
Next == MoreBlocks \/ MorePEs
Sound == \E r \in {Holders(k, P)} : HolderSets(r, k, P)
=============================================================================
