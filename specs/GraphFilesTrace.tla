--------------------------- MODULE GraphFilesTrace --------------------------
(***************************************************************************)
(* Validates recorded reads and writes of graph files, partitions and      *)
(* block sizes, and the verdicts of the input validator.                   *)
(***************************************************************************)
EXTENDS GraphFiles, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, H   \* H: the graph described by the file in use
vars == <<l, H>>
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.ev = e /\ l' = l + 1
None == [n |-> 0, m |-> 0, vw |-> <<>>, E |-> {}]
TInit == l = 1 /\ H = None

\* files made by the harness, then what was read from them
TMetis == Is("metis") /\ \E h \in {MetisGraph(R.lines)} : H' = h
TParhip == Is("parhip") /\ Holds(Len(R.words) = ParhipLength(R.words)) /\ \E h \in {ParhipGraph(R.words)} : H' = h
\* a graph in memory that is written to files
TGraph == Is("graph") /\ \E h \in {Plain(R.g)} : H' = h
TotalsOK(r, h) ==
  /\ r.tnw = SumSeq(h.vw)
  /\ r.tew = FoldSet(LAMBDA e, a : a + e[3], 0, h.E)
  /\ r.maxnw = Max0(ToSet(h.vw)) \/ h.n = 0
  /\ r.maxdeg = Max0({ Degree(h, u) : u \in 0 .. h.n - 1 })
ReadOK(r, h) ==
  IF r.perm = <<>> THEN Plain(r.g) = h /\ (r.big = 1 \/ TotalsOK(r, h))     \* (big: totals beyond TLC's integers)
  ELSE /\ IsPermutation(r.perm, h.n)
       /\ \E q \in {Plain(r.g)} : q = Renamed(h, r.perm) /\ Bucketed(q) /\ TotalsOK(r, q)
TRead == Is("read") /\ Holds(ReadOK(R, H)) /\ Holds(R.sorted = R.expsorted) /\ UNCHANGED H
\* files written for H
TWroteMetis == Is("wmetis") /\ Holds(MetisGraph(R.lines) = H /\ MetisHeaderOK(R.lines)) /\ UNCHANGED H
TWroteParhip == Is("wparhip") /\ Holds(Len(R.words) = ParhipLength(R.words) /\ ParhipGraph(R.words) = H) /\ UNCHANGED H
TFormat == Is("format") /\ Holds(R.compressed = R.expect) /\ UNCHANGED H

\* ---- assignments: one line per vertex; block sizes: one line per block
Counts(p, k) == FoldLeft(LAMBDA a, i : [a EXCEPT ![p[i] + 1] = @ + 1], Zeros(k), [i \in 1 .. Len(p) |-> i])
OneEach(lines, p) == Len(lines) = Len(p) /\ \A i \in 1 .. Len(p) : lines[i] = <<p[i]>>
TPartition == /\ Is("partition") /\ UNCHANGED H
              /\ Holds(OneEach(R.lines, R.p) /\ R.back = R.p)
TRemap == Is("remap") /\ UNCHANGED H /\ Holds(OneEach(R.lines, R.p))
TSizes == /\ Is("sizes") /\ UNCHANGED H
          /\ Holds(\E q \in {Counts(R.p, R.k)} :
                     /\ OneEach(R.lines, q)
                     /\ R.back = Concat(R.k, LAMBDA b : [i \in 1 .. q[b] |-> b - 1]))
\* ---- the validator accepts undirected graphs only
TValidate == Is("validate") /\ UNCHANGED H /\ Holds(\E h \in {Plain(R.g)} : R.accepted = (IF Undirected(h) THEN 1 ELSE 0))
TEnd == Is("end") /\ UNCHANGED H
TNext == TMetis \/ TParhip \/ TGraph \/ TRead \/ TWroteMetis \/ TWroteParhip \/ TFormat \/ TPartition \/ TRemap \/ TSizes \/ TValidate \/ TEnd
=============================================================================
