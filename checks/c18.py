"""C18: collective operations deliver every message exactly once."""
from .common import split, mpi_seeds
TECHNIQUE = "TLA+ models of the grid all-to-all and the tree reduction (TLC) + TLC validation of recorded MPI operations"
LEVEL_NOTE = ("GridAlltoall.tla: topology and two-step routing with count exchange for up to 17 PEs and all orders of progress; "
              "BinaryReduction.tla: up to 9 PEs, with termination. Operations of 1-12 real MPI processes on random communicators are validated.")


def body(c):
    exe = c.build("dcomm")
    c.model("GridAlltoall", "SPECIFICATION Spec\nINVARIANTS Delivered TopologySound\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
            'CONSTANTS Sizes=%s Patterns={"none","one","mixed","shift","root","last"} Variant="ok"\n'
            % c.pick("{1,2,3,4,5,6,7,8,9,10,11}", "{1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17}"), ("StepColumn", "StepRow"))
    c.model("GridAlltoall", "SPECIFICATION Spec\nINVARIANTS Delivered\nCHECK_DEADLOCK FALSE\n"
            'CONSTANTS Sizes={5} Patterns={"mixed"} Variant="RankOrder"\n', expect=("invariant",), label="GridAlltoall/RankOrder", workers=1)
    c.model("BinaryReduction", "SPECIFICATION Spec\nINVARIANT Complete\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
            'CONSTANTS Sizes=%s Variant="ok"\n' % c.pick("{1,2,3,4,5,6,7,8,9}", "{1,2,3,4,5,6,7,8,9,10,11,12,13}"),
            ("StepSkip", "StepSend", "StepRecv", "StepFinish"))
    c.model("BinaryReduction", "SPECIFICATION Spec\nINVARIANT Complete\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
            'CONSTANTS Sizes={3} Variant="Zero"\n', expect=("property",), label="BinaryReduction/Zero", workers=1)
    recs = mpi_seeds(c, exe, [((1, 2, 3, 4, 5, 6, 7, 8), (), 30, 300, 1, 3), ((9, 11, 12), (), 15, 150, 1, 3)],
                     what="an exchange between PEs")
    c.notes["exchanges"] = sum(r["ev"] == "exchange" for r in recs)
    c.validate("CommTrace", split(recs, ("start",)), "INIT TInit\nNEXT TNext\n")
