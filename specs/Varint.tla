------------------------------- MODULE Varint -------------------------------
(***************************************************************************)
(* Design of the variable-length integers: groups of Bits bits, least      *)
(* significant group first, with a continuation flag; the first group of a *)
(* marked integer gives one bit to the mark; signed integers are zigzagged.*)
(* A writer appends integers of any kind to a buffer while a reader        *)
(* consumes it group by group, knowing only the kinds.                     *)
(* Variant "NoFlagBit": a marked integer's first group keeps all its bits. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Bits, MaxValue, MaxItems, Variant
VARIABLES written, buf, ritem, acc, shift, mark, read
vars == <<written, buf, ritem, acc, shift, mark, read>>
B == 2 ^ Bits
Kinds == {"plain", "signed", "marked", "unmarked"}
Zig(v) == IF v >= 0 THEN 2 * v ELSE -2 * v - 1
Unzig(z) == IF z % 2 = 0 THEN z \div 2 ELSE -((z + 1) \div 2)
RECURSIVE Groups(_)
Groups(v) == IF v < B THEN <<[d |-> v, c |-> FALSE]>> ELSE <<[d |-> v % B, c |-> TRUE]>> \o Groups(v \div B)
First == IF Variant = "NoFlagBit" THEN B ELSE B \div 2
\* the mark occupies the upper bit of the first group
Marked(v, m) == LET low == v % First IN
  IF v < First THEN <<[d |-> low + m * (B \div 2), c |-> FALSE]>>
  ELSE <<[d |-> low + m * (B \div 2), c |-> TRUE]>> \o Groups(v \div First)
Code(it) == CASE it.kind = "plain" -> Groups(it.v)
              [] it.kind = "signed" -> Groups(Zig(it.v))
              [] it.kind = "marked" -> Marked(it.v, 1)
              [] it.kind = "unmarked" -> Marked(it.v, 0)
Items == { [kind |-> k, v |-> v] : k \in {"plain", "marked", "unmarked"}, v \in 0 .. MaxValue }
         \cup { [kind |-> "signed", v |-> v] : v \in -MaxValue .. MaxValue }
Init == written = <<>> /\ buf = <<>> /\ ritem = 1 /\ acc = 0 /\ shift = 1 /\ mark = 0 /\ read = <<>>
Write == \E it \in Items : /\ Len(written) < MaxItems
                           /\ written' = Append(written, it) /\ buf' = buf \o Code(it)
                           /\ UNCHANGED <<ritem, acc, shift, mark, read>>
KindOf(i) == written[i].kind
ReadGroup ==
  /\ buf # <<>>
  /\ LET g == Head(buf)
         mk == KindOf(ritem) \in {"marked", "unmarked"}
         firstg == shift = 1
         low == IF mk /\ firstg THEN g.d % (B \div 2) ELSE g.d
         a == acc + low * shift
         m == IF ~firstg THEN mark ELSE IF mk THEN g.d \div (B \div 2) ELSE 0
     IN /\ buf' = Tail(buf)
        /\ mark' = IF g.c THEN m ELSE 0
        /\ IF g.c THEN /\ acc' = a /\ shift' = shift * (IF mk /\ firstg THEN B \div 2 ELSE B)
                       /\ UNCHANGED <<ritem, read>>
           ELSE /\ read' = Append(read, [v |-> IF KindOf(ritem) = "signed" THEN Unzig(a) ELSE a, m |-> m])
                /\ acc' = 0 /\ shift' = 1 /\ ritem' = ritem + 1
  /\ UNCHANGED written
Next == Write \/ ReadGroup
Spec == Init /\ [][Next]_vars
Fifo == \A i \in DOMAIN read : /\ read[i].v = written[i].v
                                /\ read[i].m = (IF written[i].kind = "marked" THEN 1 ELSE 0)
NothingLeft == buf = <<>> => Len(read) = Len(written) /\ acc = 0
=============================================================================
