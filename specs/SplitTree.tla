----------------------------- MODULE SplitTree -----------------------------
(***************************************************************************)
(* The tree of block numbers.                                              *)
(*                                                                         *)
(* K blocks are obtained by dividing blocks in two, level by level. The    *)
(* root stands for all K final blocks; a node that stands for x > 1 blocks *)
(* has two children that stand for the first ceil(x/2) and the last        *)
(* floor(x/2) of them. Partitions into 2^l < K blocks are the levels of    *)
(* this tree, after them follows the partition into K blocks.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Upper(x) == (x + 1) \div 2
Lower(x) == x \div 2
RECURSIVE Level(_, _)
Level(K, l) == IF l = 0 THEN <<K>>
               ELSE LET q == Level(K, l - 1) IN
                    <<>> \o [i \in 1 .. 2 * Len(q) |-> IF i - 2 * (i \div 2) = 1 THEN Upper(q[(i + 1) \div 2]) ELSE Lower(q[i \div 2])]
Log2(k) == CHOOSE l \in 0 .. 30 : 2 ^ l <= k /\ k \div 2 < 2 ^ l
\* number of final blocks of every block of a partition into k blocks
Labels(K, k) == IF k = K THEN <<>> \o [i \in 1 .. K |-> 1] ELSE Level(K, Log2(k))
\* first block (0-based) of every block if block i is divided into q[i] blocks; one entry more than q
Starts(q) == FoldLeft(LAMBDA a, x : Append(a, a[Len(a)] + x), <<0>>, q)
\* number of parts of every block when k blocks become k2
Parts(K, k, k2) == IF k2 = K THEN Labels(K, k) ELSE <<>> \o [i \in 1 .. k |-> k2 \div k]
=============================================================================
