--------------------------- MODULE DistFilesTrace ---------------------------
(***************************************************************************)
(* Validates graph files read by several PEs together: the distributed     *)
(* graph is the one the file describes, its distribution the one asked for.*)
(***************************************************************************)
EXTENDS DistGraphs, Json, IOUtils
F == INSTANCE GraphFiles
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, H
vars == <<l, H>>
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.ev = e /\ l' = l + 1
TInit == l = 1 /\ H = [n |-> 0, m |-> 0, vw |-> <<>>, E |-> {}]
TMetis == Is("metis") /\ \E h \in {F!MetisGraph(R.lines)} : H' = h
TParhip == Is("parhip") /\ \E h \in {F!ParhipGraph(R.words)} : H' = h

\* no PE holds more than its share, but for the last vertex it takes
EdgesAt(r, p) == r.ed[1][p + 1] - r.ed[1][p]
NodesAt(r, p) == r.nd[1][p + 1] - r.nd[1][p]
Balanced(r, h) ==
  \E P \in {Len(r.color)} : \E d \in {Max0({ F!Degree(h, u) : u \in 0 .. h.n - 1 })} :
  \A p \in 1 .. P :
    CASE r.name = "nodes" -> NodesAt(r, p) \in {h.n \div P, CeilDiv(h.n, P)}
      [] r.name = "edges" -> EdgesAt(r, p) <= CeilDiv(h.m, P) + d
      [] r.name = "memory" -> NodesAt(r, p) + EdgesAt(r, p) <= CeilDiv(h.n + h.m, P) + 2 + d
TView == Is("view") /\ Holds(AllViewsOK(R, H) /\ Balanced(R, H)) /\ UNCHANGED H
TPartition == Is("partition") /\ UNCHANGED H /\ Holds(Len(R.lines) = Len(R.p) /\ \A i \in 1 .. Len(R.p) : R.lines[i] = <<R.p[i]>>)
TEnd == Is("end") /\ UNCHANGED H
TNext == TMetis \/ TParhip \/ TView \/ TPartition \/ TEnd
=============================================================================
