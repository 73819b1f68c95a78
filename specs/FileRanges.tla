----------------------------- MODULE FileRanges -----------------------------
(***************************************************************************)
(* How one of P processes finds and reads its part of a graph file         *)
(* (apps/io/dist_{metis,parhip}_parser.cc).                                *)
(*                                                                         *)
(* METIS: a text file can only be read front to back. The process parses   *)
(* it token by token, asks at every vertex whether it is one of its own,   *)
(* remembers where its first vertex begins, stops behind the last one,     *)
(* seeks back and parses again. ParHIP: vertex offsets are in the file;    *)
(* the first and the last vertex are found by bisection.                   *)
(*                                                                         *)
(* A vertex belongs to the process whose chunk of 0..n, 0..m or 0..n+m     *)
(* contains its key: its number, the number of edges before it, or both.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN, MaxD, MaxP,
          Variant   \* "ok", or a defect: "AfterWeight": remembers the position behind the weight of the first
                    \* vertex; "DropTail": isolated vertices behind the last edge belong to nobody;
                    \* "BeforeComments" (harmless): remembers the position before the comments
Mod(a, b) == a - b * (a \div b)
Min(a, b) == IF a <= b THEN a ELSE b
RECURSIVE SumTo(_, _)
SumTo(d, k) == IF k = 0 THEN 0 ELSE d[k - 1] + SumTo(d, k - 1)
RECURSIVE Rep(_, _)
Rep(x, k) == IF k = 0 THEN <<>> ELSE <<x>> \o Rep(x, k - 1)

VARIABLES n, d, com, wgt,       \* the file: degrees, comments before vertices, vertex weights?
          reader, by, P, rank,  \* format, balanced by, processes, this process
          at, u,                \* token to read next, vertices parsed
          lead,                 \* before the first entry of a vertex
          skipped, len, edges, start, first,   \* counters of the search
          phase, out, lo, hi    \* out: parsed lines; lo, hi: result (bisection: bounds)
vars == <<n, d, com, wgt, reader, by, P, rank, at, u, lead, skipped, len, edges, start, first, phase, out, lo, hi>>
file == <<n, d, com, wgt, reader, by, P, rank>>

m == SumTo(d, n)
Off(v) == SumTo(d, v)
\* tokens: -1 a comment line, 0 a line end, 100 + v the weight of v, 200 + v an edge of v
Line(v) == (IF com[v] THEN <<-1>> ELSE <<>>) \o (IF wgt THEN <<100 + v>> ELSE <<>>) \o Rep(200 + v, d[v]) \o <<0>>
RECURSIVE Text(_)
Text(v) == IF v = n THEN <<>> ELSE Line(v) \o Text(v + 1)
T == Text(0)
Tok == IF at <= Len(T) THEN T[at] ELSE 0
Content(v) == (IF wgt THEN <<100 + v>> ELSE <<>>) \o Rep(200 + v, d[v])

\* chunk r of 0..total
From(total, r) == r * (total \div P) + Min(r, Mod(total, P))
To(total, r) == Min(From(total, r) + (total \div P) + (IF r < Mod(total, P) THEN 1 ELSE 0), total)
Total == CASE by = "nodes" -> n [] by = "edges" -> m [] by = "memory" -> n + m
ChunkFrom == From(Total, rank)
ChunkTo == LET t == To(Total, rank) IN
           IF by = "edges" /\ rank = P - 1 /\ Variant # "DropTail" THEN t + 1 ELSE t

\* ---- what the process should get
Key(v) == CASE by = "nodes" -> v [] by = "edges" -> Off(v) [] by = "memory" -> v + Off(v)
OwnerKey(v) == CHOOSE r \in 0 .. P - 1 : \/ (From(Total, r) <= Key(v) /\ Key(v) < To(Total, r))
                                        \/ (Key(v) >= Total /\ r = P - 1)
Mine == { v \in 0 .. n - 1 : OwnerKey(v) = rank }
\* ParHIP balances memory by where the next vertex ends
MemKey(v) == v + Off(v + 1)
Bound(t) == IF t = 0 THEN 0 ELSE CHOOSE h \in 0 .. n : (h = n \/ (h > 0 /\ MemKey(h) >= t)) /\ \A g \in 1 .. h - 1 : MemKey(g) < t
Expected == IF reader = "parhip" /\ by = "memory"
            THEN { v \in 0 .. n - 1 : Bound(From(Total, rank)) <= v /\ v < Bound(To(Total, rank)) }
            ELSE Mine

Init == /\ n \in 0 .. MaxN /\ d \in [0 .. n - 1 -> 0 .. MaxD] /\ com \in [0 .. n - 1 -> BOOLEAN] /\ wgt \in BOOLEAN
        /\ reader \in {"metis", "parhip"} /\ by \in {"nodes", "edges", "memory"}
        /\ (reader = "parhip" => ~wgt /\ com = [v \in 0 .. n - 1 |-> FALSE])
        /\ P \in 1 .. MaxP /\ rank \in 0 .. P - 1
        /\ at = 1 /\ u = 0 /\ lead = TRUE /\ skipped = 0 /\ len = 0 /\ edges = 0 /\ start = 1 /\ first = 0
        /\ phase = (IF reader = "metis" THEN "scan" ELSE IF by = "nodes" THEN "chunk" ELSE "low")
        /\ out = <<>> /\ lo = 0 /\ hi = n

Parsing == phase \in {"scan", "read"}
Count == IF phase = "scan" THEN n ELSE len

SkipComment == /\ Parsing /\ lead /\ u < Count /\ Tok = -1 /\ at' = at + 1
               /\ UNCHANGED <<file, u, lead, skipped, len, edges, start, first, phase, out, lo, hi>>
\* the callback at a vertex that begins at token p: <<skip, take>>
Skip == CASE by = "nodes" -> skipped < ChunkFrom
          [] by = "edges" -> edges < ChunkFrom
          [] by = "memory" -> skipped + edges < ChunkFrom
Take == CASE by = "nodes" -> skipped + len < ChunkTo
          [] by = "edges" -> edges < ChunkTo
          [] by = "memory" -> skipped + len + edges < ChunkTo
Begin == /\ Parsing /\ lead /\ u < Count /\ Tok # -1
         /\ at' = (IF wgt THEN at + 1 ELSE at) /\ u' = u + 1 /\ lead' = FALSE
         /\ IF phase = "read" THEN out' = Append(out, IF wgt THEN <<Tok>> ELSE <<>>) /\ UNCHANGED <<skipped, len, start, first, phase>>
            ELSE /\ out' = out
                 /\ IF Skip THEN skipped' = skipped + 1 /\ UNCHANGED <<len, start, first, phase>>
                    ELSE IF Take
                         THEN /\ start' = (IF len > 0 THEN start ELSE IF Variant = "AfterWeight" /\ wgt THEN at + 1
                                           ELSE IF Variant = "BeforeComments" /\ com[u] THEN at - 1 ELSE at)
                              /\ first' = (IF len = 0 THEN edges ELSE first) /\ len' = len + 1 /\ UNCHANGED <<skipped, phase>>
                         ELSE phase' = "found" /\ UNCHANGED <<skipped, len, start, first>>
         /\ UNCHANGED <<file, edges, lo, hi>>
Edge == /\ Parsing /\ ~lead /\ Tok >= 200 /\ at' = at + 1
        /\ IF phase = "scan" THEN edges' = edges + 1 /\ out' = out
           ELSE edges' = edges /\ out' = [out EXCEPT ![Len(out)] = Append(@, Tok)]
        /\ UNCHANGED <<file, u, lead, skipped, len, start, first, phase, lo, hi>>
NewLine == /\ Parsing /\ ~lead /\ Tok < 200 /\ at' = at + 1 /\ lead' = TRUE
           /\ UNCHANGED <<file, u, skipped, len, edges, start, first, phase, out, lo, hi>>
\* the file has been scanned to its end
EndOfFile == phase = "scan" /\ lead /\ u = n /\ phase' = "found"
             /\ UNCHANGED <<file, at, u, lead, skipped, len, edges, start, first, out, lo, hi>>
Seek == phase = "found" /\ phase' = "read" /\ at' = start /\ u' = 0 /\ lead' = TRUE
        /\ lo' = skipped /\ hi' = skipped + len /\ first' = (IF len = 0 THEN 0 ELSE edges - first)
        /\ UNCHANGED <<file, skipped, len, edges, start, out>>
Finish == phase = "read" /\ lead /\ u = len /\ phase' = "done"
          /\ UNCHANGED <<file, at, u, lead, skipped, len, edges, start, first, out, lo, hi>>

\* ---- bisection; skipped: lower bound of the chunk found
Fetch(h) == IF by = "edges" THEN Off(h) ELSE MemKey(h)
Target == IF phase = "low" THEN ChunkFrom ELSE To(Total, rank)
Chunk == phase = "chunk" /\ lo' = ChunkFrom /\ hi' = ChunkTo /\ phase' = "done"
         /\ UNCHANGED <<file, at, u, lead, skipped, len, edges, start, first, out>>
Bisect == /\ phase \in {"low", "high"} /\ Target > 0 /\ hi - lo > 1
          /\ ~(phase = "high" /\ by = "edges" /\ rank = P - 1 /\ Variant # "DropTail")
          /\ LET mid == (lo + hi) \div 2 IN
             IF Fetch(mid) < Target THEN lo' = mid /\ hi' = hi ELSE hi' = mid /\ lo' = lo
          /\ UNCHANGED <<file, at, u, lead, skipped, len, edges, start, first, phase, out>>
Found == /\ phase \in {"low", "high"} /\ ~ENABLED Bisect
         /\ LET r == IF phase = "high" /\ by = "edges" /\ rank = P - 1 /\ Variant # "DropTail" THEN n
                     ELSE IF Target = 0 THEN 0 ELSE hi IN
            IF phase = "low" THEN phase' = "high" /\ skipped' = r /\ lo' = 0 /\ hi' = n
            ELSE phase' = "done" /\ lo' = skipped /\ hi' = r /\ skipped' = skipped
         /\ UNCHANGED <<file, at, u, lead, len, edges, start, first, out>>
Next == SkipComment \/ Begin \/ Edge \/ NewLine \/ EndOfFile \/ Seek \/ Finish \/ Chunk \/ Bisect \/ Found
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RangeOK == phase = "done" => { v \in 0 .. n - 1 : lo <= v /\ v < hi } = Expected
\* (reading back: exactly the lines of the range, and as many edges as counted)
ReadsItsLines == (phase = "done" /\ reader = "metis") =>
                   /\ out = [i \in 1 .. hi - lo |-> Content(lo + i - 1)]
                   /\ first = Off(hi) - Off(lo)
\* everything belongs to exactly one process
Partitioned == (phase = "done" /\ rank < P - 1 /\ reader = "parhip" /\ by = "memory") => Bound(To(Total, rank)) = Bound(From(Total, rank + 1))
NoOverrun == (Parsing /\ u < Count /\ lead) => at <= Len(T)
Ends == <>(phase = "done")
=============================================================================
