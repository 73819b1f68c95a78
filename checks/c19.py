"""C19: distributed graphs, messages along cut edges, contraction."""
from .common import split, mpi_seeds
TECHNIQUE = "TLA+ model of moving coarse vertices between PEs (TLC) + TLC validation of recorded distributed graphs and contractions"
LEVEL_NOTE = ("AssignmentShifts.tla: all loads of 3-4 PEs with few vertices and several limits. What all PEs see of real distributed graphs "
              "(plain, compressed, rearranged, with many and with few ghost vertices), all ways to send along cut edges, and global/local contraction are recomputed by the specification.")
AS = ("SPECIFICATION Spec\nINVARIANTS Balanced Injective\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\nCONSTANTS P=%d MaxFine=%d Imbs=%s Variant=\"%s\"\n")


def body(c):
    exe = c.build("ddata")
    c.model("AssignmentShifts", AS % (3, c.pick(4, 6), "{100,120,150}", "ok"), ("Start", "Scan", "Retry"), label="AssignmentShifts/3")
    c.model("AssignmentShifts", AS % (4, c.pick(3, 4), c.pick("{100,150}", "{100,120,150}"), "ok"), ("Start", "Scan", "Retry"), label="AssignmentShifts/4")
    c.model("AssignmentShifts", AS % (3, 4, "{100,120,150}", "NoSlack"), expect=("property",), label="AssignmentShifts/NoSlack")
    c.model("AssignmentShifts", AS % (3, 4, "{100,120,150}", "IgnoreRoom"), expect=("invariant",), label="AssignmentShifts/IgnoreRoom")
    recs = mpi_seeds(c, exe, [((1, 2, 3, 4, 5, 7, 8), ("view",), 25, 250, 1, 2), ((1, 2, 3, 4, 5, 6, 7, 8), ("contract",), 60, 500, 1, 3),
                              ((1, 2, 4, 5), ("slim",), 3, 30, 1, 2), ((1, 2, 3, 5), ("local",), 25, 250, 1, 2)], what="distributed graph")
    for k in ("view", "comm", "mapping"):
        c.notes[k] = sum(r["ev"] == k for r in recs)
    c.validate("DistDataTrace", split(recs), "INIT TInit\nNEXT TNext\n")
