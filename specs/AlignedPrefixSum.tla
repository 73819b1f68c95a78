-------------------------- MODULE AlignedPrefixSum --------------------------
(***************************************************************************)
(* parallel::aligned_prefix_sum: P workers compute aligned prefix sums of   *)
(* their ranges in place, the totals of the ranges are summed up, aligned   *)
(* to 8, and added to all later ranges. Values are placed behind each       *)
(* other, each at a multiple of its alignment (0: anywhere).                *)
(* Worker c handles from..to and writes positions from+1 .. to.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxLen, Aligns, Vals, MaxP, Variant
VARIABLES n, al, v, p, o, stage, left, ps
vars == <<n, al, v, p, o, stage, left, ps>>

Mod(a, b) == a % b
Min2(a, b) == IF a < b THEN a ELSE b
AlignUp(x, a) == IF a = 0 THEN x ELSE x + Mod(a - Mod(x, a), a)
From(c) == (c * (n \div p)) + Min2(c, Mod(n, p))
To(c) == From(c) + (n \div p) + (IF c < Mod(n, p) THEN 1 ELSE 0)

\* n is the number of elements minus one: the elements are 0 .. n (sequences: 1 .. n + 1)
Init == /\ n \in 1 .. (MaxLen - 1)
        /\ al \in [1 .. (n + 1) -> Aligns] /\ v \in [1 .. (n + 1) -> Vals]
        /\ p \in 1 .. Min2(MaxP, n)
        /\ o = [i \in 1 .. (n + 1) |-> IF i = 1 THEN 0 ELSE -1]
        /\ stage = "local" /\ left = 0 .. (p - 1) /\ ps = <<>>
\* sequential sum over from .. to: the first position belongs to the worker before
RECURSIVE Local(_, _, _, _)
Local(f, i, c, acc) ==  \* acc: aligned start of element i (0 for the first one)
  IF i > To(c) THEN f
  ELSE LET raw == acc + v[i]                     \* element i (0-based) is al[i + 1], v[i + 1]
           at == IF i = To(c) /\ Variant = "RawLast" THEN raw ELSE AlignUp(raw, al[i + 1])
       IN Local([f EXCEPT ![i + 1] = at], i + 1, c, at)
LocalSum == /\ stage = "local"
            /\ \E c \in left :
                 /\ o' = Local(o, From(c) + 1, c, 0)
                 /\ left' = left \ {c}
                 /\ IF left = {c} THEN stage' = "scan" ELSE UNCHANGED stage
            /\ UNCHANGED <<n, al, v, p, ps>>
RECURSIVE Sums(_, _)
Sums(c, acc) == IF c = p THEN acc
                ELSE LET x == acc[c] + o[From(c) + 1]
                         a == CASE Variant = "AlignFour" -> 4 [] Variant = "NoAlign" -> 1 [] OTHER -> 8
                     IN Sums(c + 1, Append(acc, AlignUp(x, a)))
Scan == /\ stage = "scan" /\ ps' = Sums(1, <<0>>)
        /\ stage' = "add" /\ left' = 0 .. (p - 1)
        /\ UNCHANGED <<n, al, v, p, o>>
Add == /\ stage = "add"
       /\ \E c \in left :
            /\ o' = [i \in 1 .. (n + 1) |->
                       IF i \in (From(c) + (IF Variant = "ShiftFirst" THEN 1 ELSE 2)) .. (To(c) + 1) THEN o[i] + ps[c + 1] ELSE o[i]]
            /\ left' = left \ {c}
            /\ IF left = {c} THEN stage' = "done" ELSE UNCHANGED stage
       /\ UNCHANGED <<n, al, v, p, ps>>
Next == LocalSum \/ Scan \/ Add

\* what is checked on the results of the implementation, too (PrimsTrace.tla)
Placed == stage = "done" =>
  /\ o[1] = 0
  /\ \A i \in 1 .. n : o[i + 1] >= o[i] + v[i]
  /\ \A i \in 1 .. n + 1 : al[i] > 0 => Mod(o[i], al[i]) = 0
Compact == stage = "done" => \A i \in 1 .. n : o[i + 1] - (o[i] + v[i]) <= 14
\* every worker starts its range with the offset of a prefix that ends there
Cover == (stage = "local" /\ left = 0 .. (p - 1)) =>
           /\ From(0) = 0 /\ To(p - 1) = n /\ \A c \in 0 .. (p - 2) : To(c) = From(c + 1) /\ From(c) < To(c)
=============================================================================
