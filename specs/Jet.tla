-------------------------------- MODULE Jet ---------------------------------
(***************************************************************************)
(* Jet: rounds of iterations. An iteration moves some vertices (possibly   *)
(* for the worse) and rebalances; the best partition seen is kept and is   *)
(* restored at the end of a round unless the last iteration reached it.    *)
(* A partition is abstracted to an identity and its cut.                   *)
(*                                                                         *)
(* Variants (each must be caught):                                         *)
(*   "StickyFlag"  the flag is not reset by a worse iteration              *)
(*   "NoRollback"  the last partition is returned                          *)
(*   "StaleCopy"   an improvement updates the best cut but not the copy    *)
(***************************************************************************)
EXTENDS Integers, TLC
CONSTANTS Cuts, Rounds, Iterations, Variant
VARIABLES cut, copy, best, last, first, round, iter, pc
vars == <<cut, copy, best, last, first, round, iter, pc>>
Init == /\ cut \in Cuts /\ copy = cut /\ best = cut /\ first = cut /\ last = TRUE
        /\ round = 1 /\ iter = 0 /\ pc = "iterate"
Iterate == /\ pc = "iterate" /\ iter < Iterations
           /\ \E c \in Cuts :
                /\ cut' = c
                /\ copy' = (IF c <= best /\ (Variant # "StaleCopy" \/ c = best) THEN c ELSE copy)
                /\ last' = (c <= best \/ (Variant = "StickyFlag" /\ last))
                /\ best' = (IF c < best THEN c ELSE best)
           /\ iter' = iter + 1
           /\ UNCHANGED <<first, round, pc>>
\* a round may end early (fruitless iterations)
EndRound == /\ pc = "iterate" /\ iter > 0
            /\ cut' = (IF last \/ Variant = "NoRollback" THEN cut ELSE copy)
            /\ iter' = 0
            /\ IF round = Rounds THEN pc' = "done" /\ UNCHANGED round ELSE round' = round + 1 /\ UNCHANGED pc
            /\ UNCHANGED <<copy, best, last, first>>
Next == Iterate \/ EndRound
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the result is the best partition seen, hence at least as good as the input
Best == pc = "done" => cut = best
NeverWorse == pc = "done" => cut <= first
CopyIsBest == copy = best
Returns == <>(pc = "done")
=============================================================================
