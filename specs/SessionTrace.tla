---------------------------- MODULE SessionTrace ----------------------------
(* Validates recorded sessions with the real object against Session.tla.    *)
EXTENDS Session, Json, IOUtils
CONSTANT CheckBalance, CheckMemo   \* which part of the contract this run decides
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sid
tvars == <<vars, l, sid>>
TInit == Init /\ l = 1 /\ sid = -1
R == Trace[l]
Is(e) == l <= Len(Trace) /\ R.ev = e /\ l' = l + 1

\* mode: settings beyond the preset; two of them give up refinement of the whole partition, and with it balance
TNew == Is("new") /\ New(IF R.mode \in {"rb-only", "restricted"} THEN "noref" ELSE R.preset, R.threads) /\ sid' = R.sid
TSet == Is("set") /\ R.same /\ SetGraph(R.g) /\ UNCHANGED sid  \* handing over a graph does not change the arguments
TReseed == Is("reseed") /\ Reseed /\ UNCHANGED sid
TCall == Is("call") /\ UNCHANGED <<vars, sid>>
TEnd == Is("end") /\ UNCHANGED <<vars, sid>>
TPart == /\ Is("part")
         /\ R.same                                \* copied input arrays stay untouched
         /\ IF CheckMemo /\ obj.threads = 1 /\ sid >= 0
              THEN PartitionDet(<<sid, calls>>, R.k, R.p, R.cut)
              ELSE IF CheckBalance
                THEN PartitionBalanced(R.k, R.eps, R.maxw, R.p, R.cut)
                ELSE Partition(R.k, R.p, R.cut)
         /\ UNCHANGED sid
TNext == TNew \/ TSet \/ TReseed \/ TCall \/ TEnd \/ TPart
=============================================================================
