---------------------------- MODULE SplitTreeMC ----------------------------
(***************************************************************************)
(* All ways to arrive at K blocks: a partition into k blocks (initially 1) *)
(* is extended to any further level of the tree or to K blocks.            *)
(* For every vertex it matters only in which of the final blocks it can    *)
(* end: `lo .. hi` is the range of final blocks its current block stands   *)
(* for. The closed formulas of the implementation (labels by reversing     *)
(* bits, first sub-blocks by walking down) must describe the same tree.    *)
(***************************************************************************)
EXTENDS SplitTree, TLC
CONSTANTS MaxK, Variant
VARIABLES K, k, b, lo, hi     \* one block b of the current k blocks and the final blocks it stands for
vars == <<K, k, b, lo, hi>>

Init == K \in 2 .. MaxK /\ k = 1 /\ b = 0 /\ lo = 0 /\ hi = K - 1

Goals == { K } \cup { 2 ^ l : l \in 1 .. 9 }
\* the block becomes several blocks, of which one is followed
Extend == \E k2 \in { x \in Goals : k < x /\ x <= K } :
            LET q == Parts(K, k, k2)  s == Starts(q) IN
            \E c \in s[b + 1] .. s[b + 2] - 1 :
               LET lab == Labels(K, k2)  f == Starts(lab) IN
               /\ k' = k2 /\ b' = c /\ lo' = f[c + 1] /\ hi' = f[c + 2] - 1 /\ K' = K
Next == Extend
Spec == Init /\ [][Next]_vars

\* dividing a block never leads out of the final blocks it stands for, and these are all reached
Nested == [][lo <= lo' /\ hi' <= hi]_vars
NonEmpty == lo <= hi
Done == k = K => lo = hi /\ lo = b

RECURSIVE BitReverse(_, _)
BitReverse(x, bits) == IF bits = 0 THEN 0 ELSE (x - 2 * (x \div 2)) * 2 ^ (bits - 1) + BitReverse(x \div 2, bits - 1)
LabelFormula(B, kk) ==
  LET l == Log2(kk)  base == K \div 2 ^ l  plus == K - base * 2 ^ l
  IN base + (IF (IF Variant = "NoReverse" THEN B ELSE BitReverse(B, l)) < plus THEN 1 ELSE 0)
RECURSIVE Walk(_, _, _)
Walk(x, B, bits) == \* first final block of block B of the subtree of x with `bits` levels
  IF bits = 0 THEN 0
  ELSE IF B >= 2 ^ (bits - 1) THEN Upper(x) + Walk(Lower(x), B - 2 ^ (bits - 1), bits - 1)
       ELSE Walk(IF Variant = "Floor" THEN Lower(x) ELSE Upper(x), B, bits - 1)
Balanced == LET q == Labels(K, k) IN \A i, j \in { 1, Len(q), b + 1 } : q[i] - q[j] \in { -1, 0, 1 }
Formulas == k < K => /\ LabelFormula(b, k) = Labels(K, k)[b + 1]
                     /\ Walk(K, b, Log2(k)) = lo
                     /\ LabelFormula(b, k) >= 1
=============================================================================
