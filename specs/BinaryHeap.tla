---------------------------- MODULE BinaryHeap ----------------------------
(***************************************************************************)
(* Addressable heap of given arity (binary_heap.h): an array with the      *)
(* entries and a map from ids to positions. Larger keys are better;        *)
(* removal gives the entry the best key of all (Top), moves it to the root *)
(* and pops. All histories over all ids and keys.                          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Ids, Keys, Arity, Variant
ASSUME Variant \in {"ok", "FirstChild", "KeepPosition", "OneWay", "StopEarly"}
None == 0
Best == 1000
VARIABLES heap, pos, ref
vars == <<heap, pos, ref>>

\* a heap under modification: [h |-> array, p |-> positions]; positions start with 1
Swap(x, a, b) == [h |-> [x.h EXCEPT ![a] = x.h[b], ![b] = x.h[a]],
                  p |-> [x.p EXCEPT ![x.h[a].id] = b, ![x.h[b].id] = a]]
Parent(i) == ((i - 2) \div Arity) + 1
RECURSIVE Up(_, _)
Up(x, i) == IF i = 1 THEN x
            ELSE LET q == Parent(i) IN
                 IF x.h[q].key < x.h[i].key THEN Up(Swap(x, i, q), q)
                 ELSE IF Variant = "StopEarly" THEN x ELSE Up(x, q)
Children(x, i) == { c \in (Arity * (i - 1) + 2) .. (Arity * i + 1) : c <= Len(x.h) }
BestChild(x, i) == LET C == Children(x, i)
                       First(S) == CHOOSE c \in S : \A d \in S : c <= d
                   IN IF Variant = "FirstChild" THEN First(C)
                      ELSE First({ c \in C : \A d \in C : x.h[d].key <= x.h[c].key })
RECURSIVE Down(_, _)
Down(x, i) == IF Children(x, i) = {} THEN x
              ELSE LET c == BestChild(x, i) IN
                   IF x.h[c].key <= x.h[i].key THEN x ELSE Down(Swap(x, i, c), c)
SetKey(x, id, k) == [x EXCEPT !.h[x.p[id]].key = k]
Cur == [h |-> heap, p |-> pos]
PopOf(x) ==
  LET last == Len(x.h)
      first == x.h[1].id
      h2 == SubSeq([x.h EXCEPT ![1] = x.h[last]], 1, last - 1)
      p1 == [x.p EXCEPT ![x.h[last].id] = 1]
      p2 == IF Variant = "KeepPosition" THEN p1 ELSE [p1 EXCEPT ![first] = None]
  IN Down([h |-> h2, p |-> p2], 1)
Set(x) == heap' = x.h /\ pos' = x.p

Init == heap = <<>> /\ pos = [i \in Ids |-> None] /\ ref = {}
Present == { e.id : e \in ref }
Push == \E id \in Ids \ Present, k \in Keys :
          /\ Set(Up([h |-> Append(heap, [id |-> id, key |-> k]), p |-> [pos EXCEPT ![id] = Len(heap) + 1]], Len(heap) + 1))
          /\ ref' = ref \union {[id |-> id, key |-> k]}
Pop == heap # <<>> /\ Set(PopOf(Cur)) /\ ref' = ref \ {heap[1]}
Change == \E e \in ref, k \in Keys :
            /\ Set(IF k > e.key THEN Up(SetKey(Cur, e.id, k), pos[e.id])
                   ELSE IF k < e.key /\ Variant # "OneWay" THEN Down(SetKey(Cur, e.id, k), pos[e.id])
                   ELSE SetKey(Cur, e.id, k))
            /\ ref' = (ref \ {e}) \union {[id |-> e.id, key |-> k]}
Remove == \E e \in ref :
            /\ Set(PopOf(Up(SetKey(Cur, e.id, Best), pos[e.id])))
            /\ ref' = ref \ {e}
Clear == heap # <<>> /\ heap' = <<>> /\ pos' = [i \in Ids |-> None] /\ ref' = {}
Next == Push \/ Pop \/ Change \/ Remove \/ Clear
Spec == Init /\ [][Next]_vars

Content == { heap[i] : i \in DOMAIN heap } = ref /\ Len(heap) = Cardinality(ref)
Positions == \A id \in Ids : IF id \in Present THEN pos[id] \in DOMAIN heap /\ heap[pos[id]].id = id ELSE pos[id] = None
Extreme == heap # <<>> => \A e \in ref : e.key <= heap[1].key
Ordered == \A i \in DOMAIN heap : i = 1 \/ heap[i].key <= heap[Parent(i)].key
===========================================================================
