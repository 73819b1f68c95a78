-------------------------- MODULE DistSessionTrace --------------------------
(* Validates recorded sessions with the distributed partitioner.            *)
EXTENDS DistSession, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, rip \* rip: random initial partitioning
tvars == <<vars, l, rip>>
TInit == Init /\ l = 1 /\ rip = FALSE
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.ev = e /\ l' = l + 1
TNew == Is("new") /\ New(R.pes) /\ rip' = R.rip
TSet == Is("set") /\ Import(R.g, R.dist) /\ UNCHANGED rip
TImported == Is("imported") /\ R.same /\ UNCHANGED <<vars, rip>>     \* importing leaves the arguments alone
TCall == Is("call") /\ UNCHANGED <<vars, rip>>
TEnd == Is("end") /\ UNCHANGED <<vars, rip>>
TPart == /\ Is("part") /\ UNCHANGED rip
         /\ IF rip THEN Partition(R.k, R.p, R.cuts) ELSE PartitionBalanced(R.k, R.eps, R.p, R.cuts)
TNext == TNew \/ TSet \/ TImported \/ TCall \/ TEnd \/ TPart
=============================================================================
