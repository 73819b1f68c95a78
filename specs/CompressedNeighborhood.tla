---------------------- MODULE CompressedNeighborhood ----------------------
(***************************************************************************)
(* Design of the neighborhood encoding: a neighborhood is split into parts *)
(* if its degree reaches HighDegree; within a part, maximal runs of at     *)
(* least IntervalLen consecutive ids become intervals, all other ids gaps. *)
(* A stream of numbers is written, then read back number by number, with   *)
(* nothing but the stream, the vertex and the degree known to the reader.  *)
(*                                                                         *)
(* Variant: "ok", "NoSkip" (the left end of an interval is coded relative  *)
(* to the previous right end + 2 by the writer, but + 1 by the reader),    *)
(* "KeepLast" (the second gap is coded relative to the vertex, too).       *)
(***************************************************************************)
EXTENDS Graphs
CONSTANTS NumNodes, IntervalLen, HighDegree, PartLen, Variant, Weighted

VARIABLES u, nbs, stage, stream, parts, out
vars == <<u, nbs, stage, stream, parts, out>>

Ids == 0 .. NumNodes - 1
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
\* weights are a function of the neighbor (so that a mix-up is visible)
Wt(v) == IF Weighted THEN (3 * v + 2) \div 2 ELSE 1

\* ------------------------------------------------------------------ writer
Chunk(q, i) == SubSeq(q, (i - 1) * PartLen + 1, Min2(i * PartLen, Len(q)))
Parts(q) == IF Len(q) >= HighDegree
            THEN <<>> \o [i \in 1 .. CeilDiv(Len(q), PartLen) |-> Chunk(q, i)]
            ELSE <<q>>
\* maximal runs of a set as sequence of <<left, right>>
Runs(S) == LET L == { a \in S : a - 1 \notin S }
               Right(a) == CHOOSE b \in S : b >= a /\ b + 1 \notin S /\ \A c \in a .. b : c \in S
               long == { a \in L : Right(a) - a + 1 >= IntervalLen }
           IN [i \in 1 .. Cardinality(long) |-> <<Sorted(long)[i], Right(Sorted(long)[i])>>]

EncodePart(q) ==
  LET S == ToSet(q)
      R == Runs(S)
      inR == UNION { R[i][1] .. R[i][2] : i \in DOMAIN R }
      rest == Sorted(S \ inR)
      W(v, prev) == IF Weighted THEN <<Wt(v) - prev>> ELSE <<>>
      ivl == FoldLeft(LAMBDA acc, r :
               [s |-> acc.s \o <<r[1] - acc.e, r[2] - r[1] + 1 - IntervalLen>>
                        \o FoldLeft(LAMBDA b, v : b \o W(v, IF v = r[1] THEN acc.w ELSE Wt(v - 1)), <<>>,
                                    [j \in 1 .. (r[2] - r[1] + 1) |-> r[1] + j - 1]),
                e |-> r[2] + 2, w |-> Wt(r[2])],
               [s |-> <<>>, e |-> 0, w |-> 0], R)
      gaps == FoldLeft(LAMBDA acc, v :
               [s |-> acc.s \o (IF acc.first THEN <<v - u>> ELSE <<v - acc.p - 1>>) \o W(v, acc.w),
                p |-> IF Variant = "KeepLast" /\ acc.first THEN u ELSE v, w |-> Wt(v), first |-> FALSE],
               [s |-> <<>>, p |-> 0, w |-> ivl.w, first |-> TRUE], rest)
  IN [ivls |-> Len(R), s |-> (IF Len(R) > 0 THEN <<Len(R) - 1>> ELSE <<>>) \o ivl.s \o gaps.s, deg |-> Len(q)]

\* ------------------------------------------------------------------ reader (symbol by symbol)
\* state of the reader: position, remaining ids, remaining intervals (-1: not yet read), previous right
\* end, previous id, previous weight, ids of the running interval still to be emitted
Reader(p) == [pos |-> 1, rem |-> p.deg, ivls |-> IF p.ivls > 0 THEN -1 ELSE 0, right |-> 0, prev |-> 0,
              first |-> TRUE, w |-> 0, runpos |-> 0, run |-> 0]

Init == /\ u \in Ids /\ nbs \in SUBSET Ids
        /\ stage = "encode" /\ stream = <<>> /\ parts = <<>> /\ out = <<>>

Encode == /\ stage = "encode"
          /\ parts' = (IF nbs = {} THEN <<>> ELSE <<>> \o [i \in 1 .. Len(Parts(Sorted(nbs))) |-> EncodePart(Parts(Sorted(nbs))[i])])
          /\ stage' = "decode"
          /\ stream' = (IF parts' = <<>> THEN <<>> ELSE <<Reader(parts'[1])>>)
          /\ UNCHANGED <<u, nbs, out>>

Cur == parts[1].s
R0 == stream[1]
Sym == Cur[R0.pos]
\* emits id v; with weights, the weight is the next symbol at position p
Emit(v, p, r) == /\ out' = Append(out, <<v, IF Weighted THEN Cur[p] + r.w ELSE 1>>)
                 /\ stream' = <<[r EXCEPT !.pos = IF Weighted THEN p + 1 ELSE p, !.rem = @ - 1,
                                          !.w = IF Weighted THEN Cur[p] + r.w ELSE 0]>>

ReadCount == /\ R0.ivls = -1 /\ stream' = <<[R0 EXCEPT !.ivls = Sym + 1, !.pos = @ + 1]>> /\ UNCHANGED out
ReadInterval == /\ R0.ivls > 0 /\ R0.run = 0
                /\ LET left == Sym + R0.right
                       len == Cur[R0.pos + 1] + IntervalLen
                   IN stream' = <<[R0 EXCEPT !.pos = @ + 2, !.run = len, !.runpos = left,
                                             !.right = left + len - 1 + (IF Variant = "NoSkip" THEN 1 ELSE 2)]>>
                /\ UNCHANGED out
EmitRun == /\ R0.run > 0
           /\ Emit(R0.runpos, R0.pos, [R0 EXCEPT !.run = @ - 1, !.runpos = @ + 1,
                                                 !.ivls = IF R0.run = 1 THEN @ - 1 ELSE @])
ReadGap == /\ R0.ivls = 0 /\ R0.run = 0 /\ R0.rem > 0
           /\ LET v == IF R0.first THEN Sym + u ELSE Sym + R0.prev + 1
              IN Emit(v, R0.pos + 1, [R0 EXCEPT !.first = FALSE, !.prev = v])
NextPart == /\ R0.ivls = 0 /\ R0.run = 0 /\ R0.rem = 0
            /\ parts' = Tail(parts)
            /\ stream' = (IF parts' = <<>> THEN <<>> ELSE <<Reader(parts'[1])>>)
            /\ UNCHANGED <<u, nbs, stage, out>>

Decode == stage = "decode" /\ parts # <<>> /\ (ReadCount \/ ReadInterval \/ EmitRun \/ ReadGap) /\ UNCHANGED <<u, nbs, stage, parts>>
Finish == stage = "decode" /\ parts = <<>> /\ stage' = "done" /\ UNCHANGED <<u, nbs, parts, stream, out>>
Skip == stage = "decode" /\ parts # <<>> /\ NextPart
Next == Encode \/ Decode \/ Skip \/ Finish
Spec == Init /\ [][Next]_vars

\* the reader ends exactly at the end of every part, and has seen every neighbor once with its weight
ReadsAll == (stage = "decode" /\ parts # <<>> /\ R0.rem = 0 /\ R0.run = 0 /\ R0.ivls = 0) => R0.pos = Len(Cur) + 1
SameNeighborhood == stage = "done" => /\ Len(out) = Cardinality(nbs)
                                      /\ { out[i] : i \in DOMAIN out } = { <<v, Wt(v)>> : v \in nbs }
Progress == stage = "done" \/ ENABLED Next
=============================================================================
