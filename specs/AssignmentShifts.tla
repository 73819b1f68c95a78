-------------------------- MODULE AssignmentShifts --------------------------
(***************************************************************************)
(* Rebalancing coarse vertices during global clustering contraction: PEs   *)
(* with more than a limit give away a prefix (or suffix) of theirs; the    *)
(* others fill up evenly, but no PE may end up with more coarse than fine  *)
(* vertices. Computed by raising a water level over the PEs in the order   *)
(* of their loads (global_cluster_contraction.cc).                         *)
(***************************************************************************)
EXTENDS Graphs
CONSTANTS P, MaxFine, Imbs, Variant
VARIABLES pc, fine, cnt, mx, pe, over, maxes, num, level, plus, prefix
vars == <<pc, fine, cnt, mx, pe, over, maxes, num, level, plus, prefix>>

Total == SumSeq(cnt)
Avg == Max2(1, Total \div P)
Overload(p) == Max2(0, cnt[p] - mx)
TotalOver == SumSeq([p \in 1 .. P |-> Overload(p)])
\* PEs by load; the code breaks ties arbitrarily, which makes no difference for the level
Order == SortSeq([p \in 1 .. P |-> p], LAMBDA a, b : cnt[a] < cnt[b] \/ (cnt[a] = cnt[b] /\ a < b))
LowestOf(bag) == CHOOSE x \in { bag[i] : i \in 1 .. Len(bag) } : \A i \in 1 .. Len(bag) : x <= bag[i]
Without(bag, x) == LET i == CHOOSE i \in 1 .. Len(bag) : bag[i] = x IN SubSeq(bag, 1, i - 1) \o SubSeq(bag, i + 1, Len(bag))

Init == /\ fine \in [1 .. P -> 0 .. MaxFine] /\ cnt \in [1 .. P -> 0 .. MaxFine] /\ \A p \in 1 .. P : cnt[p] <= fine[p]
        /\ SumSeq(cnt) > 0
        /\ \E imb \in Imbs : mx = (imb * Avg) \div 100
        /\ prefix \in BOOLEAN
        /\ pc = "start" /\ pe = 1 /\ over = 0 /\ maxes = <<>> /\ num = 0 /\ level = 0 /\ plus = 0

Start == /\ pc = "start" /\ over' = TotalOver /\ pe' = 1 /\ maxes' = <<>> /\ num' = 0 /\ level' = 0 /\ plus' = 0
         /\ pc' = "scan" /\ UNCHANGED <<fine, cnt, mx, prefix>>

\* the level rises to the load of the next PE; PEs that are full drop out on the way
RECURSIVE Rise(_, _, _, _, _)
Rise(from, to, o, bag, k) ==
  IF bag = <<>> \/ to <= LowestOf(bag) THEN [from |-> from, over |-> o, bag |-> bag, num |-> k]
  ELSE LET top == LowestOf(bag) IN
       IF o > k * (top - from) THEN Rise(top, to, o - k * (top - from), Without(bag, top), k - 1)
       ELSE [from |-> from, over |-> o, bag |-> Without(bag, top), num |-> k]
Scan == /\ pc = "scan" /\ pe < P
        /\ \E x \in {Rise(cnt[Order[pe]], cnt[Order[pe + 1]], over, Append(maxes, fine[Order[pe]]), num + 1)} :
           LET delta == cnt[Order[pe + 1]] - x.from IN
           IF x.over > x.num * delta
           THEN /\ over' = x.over - x.num * delta /\ pe' = pe + 1 /\ maxes' = x.bag /\ num' = x.num
                /\ UNCHANGED <<level, plus, pc>>
           ELSE /\ num' = x.num /\ maxes' = x.bag
                /\ level' = x.from + (IF x.num = 0 THEN 0 - 1 ELSE x.over \div x.num)
                /\ plus' = IF x.num = 0 THEN 0 - 1 ELSE Mod(x.over, x.num)
                /\ over' = 0 /\ pc' = "done" /\ UNCHANGED pe
        /\ UNCHANGED <<fine, cnt, mx, prefix>>
\* not possible: raise the limit and start again
Retry == /\ pc = "scan" /\ pe = P /\ over > 0
         /\ mx' = IF Variant = "NoSlack" THEN mx ELSE (101 * (mx + over)) \div 100
         /\ pc' = "start" /\ UNCHANGED <<fine, cnt, pe, over, maxes, num, level, plus, prefix>>
Next == Start \/ Scan \/ Retry
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- result
Room(p) == fine[p] - cnt[p]
Base(p) == IF cnt[p] > level THEN 0 ELSE Min2(level - cnt[p], IF Variant = "IgnoreRoom" THEN 1000 ELSE Room(p))
\* the first `plus` PEs with room left get one more
Gets(p) == cnt[p] <= level /\ Base(p) < Room(p)
Under(p) == Base(p) + (IF Gets(p) /\ Cardinality({ q \in 1 .. p - 1 : Gets(q) }) < plus THEN 1 ELSE 0)
PrefOver == [p \in 0 .. P |-> SumSeq([q \in 1 .. p |-> Overload(q)])]
PrefUnder == [p \in 0 .. P |-> SumSeq([q \in 1 .. p |-> Under(q)])]
NewCnt(p) == cnt[p] - Overload(p) + Under(p)
\* new owner and position there of coarse vertex i (from 0) of PE p
Remap(p, i) ==
  LET o == Overload(p)
      stays == IF prefix THEN i >= o ELSE i < cnt[p] - o
      pos == PrefOver[p - 1] + (IF prefix THEN i ELSE i - (cnt[p] - o))
      q == CHOOSE z \in 1 .. P : PrefUnder[z - 1] <= pos /\ pos < PrefUnder[z] IN
  IF stays THEN <<p, IF prefix THEN i - o ELSE i>> ELSE <<q, cnt[q] + pos - PrefUnder[q - 1]>>

Balanced == pc = "done" =>
  /\ level >= 0 /\ plus >= 0
  /\ PrefOver[P] = PrefUnder[P]
  /\ \A p \in 1 .. P : Under(p) >= 0 /\ cnt[p] + Under(p) <= fine[p]
  \* the limit holds if it is large enough, and no PE is too small for it
  /\ (P * mx >= Total /\ \A p \in 1 .. P : fine[p] >= mx) => \A p \in 1 .. P : NewCnt(p) <= mx
  \* ... and is missed by rounding only, otherwise
  /\ (\A p \in 1 .. P : fine[p] >= mx + P - 1) => \A p \in 1 .. P : NewCnt(p) <= mx + P - 1
\* clusters keep apart and are named after vertices of their new owner (names may be skipped)
Injective == pc = "done" =>
  \E D \in {{ z \in (1 .. P) \X (0 .. MaxFine) : z[2] < cnt[z[1]] }} : \E Q \in {{ Remap(z[1], z[2]) : z \in D }} :
  Cardinality(Q) = Cardinality(D) /\ \A y \in Q : y[2] < fine[y[1]]
Ends == <>(pc = "done")
=============================================================================
