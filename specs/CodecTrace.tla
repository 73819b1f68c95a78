---------------------------- MODULE CodecTrace ----------------------------
(***************************************************************************)
(* A buffer filled by the variable-length codecs is a queue: items are     *)
(* read in the order they were written, each with its value, its mark and  *)
(* exactly its own bytes.  Blocks of StreamVByte integers, compact arrays  *)
(* and ranked bit vectors are maps from positions to values.               *)
(* (64 bit values are strings.)                                            *)
(***************************************************************************)
EXTENDS Graphs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, q
vars == <<l, q>>
TInit == l = 1 /\ q = <<>>

IsBlock(r) == /\ r.got = r.vals
              /\ r.head = SubSeq(r.vals, 1, r.stop)
              /\ r.sum = r.size

LastWrite(r, i) == LET W == { j \in DOMAIN r.pos : r.pos[j] = i } IN r.val[MaxOf(W)]
IsCompact(r) ==
  LET content == [i \in 1 .. r.n |-> LastWrite(r, i - 1)] IN
  /\ r.got = content /\ r.it = content /\ r.uncut = content
  /\ r.cutsize = r.k /\ r.cut = SubSeq(content, 1, r.k)

\* number of elements below p in an ascending sequence: the probes ascend as well
IsBits(r) ==
  LET S == ToSet(r.ones) IN
  \A i \in DOMAIN r.probe :
     /\ r.is[i] = (IF r.probe[i] \in S THEN 1 ELSE 0)
     /\ LET k == r.rank[i] IN
          /\ k >= 0 /\ k <= Len(r.ones)
          /\ (k > 0 => r.ones[k] < r.probe[i])
          /\ (k < Len(r.ones) => r.ones[k + 1] >= r.probe[i])

MaxLen(kind) == IF kind \in {"u32", "s32"} THEN 5 ELSE IF kind = "m32" THEN 5 ELSE 10
Step(r) ==
  CASE r.ev = "put" -> /\ r.len = r.claimed /\ r.len >= 1 /\ r.len <= MaxLen(r.kind)
                       /\ q' = Append(q, r)
    [] r.ev = "get" -> /\ q # <<>>
                       /\ r.kind = q[1].kind /\ r.val = q[1].val /\ r.mark = q[1].mark /\ r.len = q[1].len
                       /\ q' = Tail(q)
    [] r.ev = "end" -> q = <<>> /\ UNCHANGED q
    [] r.ev = "block" -> Holds(IsBlock(r)) /\ UNCHANGED q
    [] r.ev = "compact" -> Holds(IsCompact(r)) /\ UNCHANGED q
    [] r.ev = "bits" -> Holds(IsBits(r)) /\ UNCHANGED q
TNext == l <= Len(Trace) /\ l' = l + 1 /\ \E r \in {Trace[l]} : Step(r)
===========================================================================
