"""C20: the distributed partitioner assigns every vertex on every PE, agrees on the cut, and balances."""
from .common import split, mpi_seeds
TECHNIQUE = "TLA+ model of the distributed deep multilevel scheme (TLC) + TLC validation of recorded MPI sessions"
LEVEL_NOTE = ("DistDeep.tla: splitting into PE groups, joining, and dividing blocks for up to 8 PEs, with termination; sessions of 1-8 "
              "real MPI processes (several graphs per object, all distributions of vertices, presets and options) are recorded and "
              "validated against DistSession.tla.")
MC = ("SPECIFICATION Spec\nINVARIANTS %sNeverTooMany JoinFits AllPEsUsed Complete\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
      "CONSTANTS Sizes={1,3,5,8,13} PEs=%s Blocks=%s BigK=4 Limit=2 Variant=\"%s\"\n")


def body(c):
    exe = c.build("dsession")
    c.model("DistDeep", MC % ("Divides ", "{1,2,3,4,5,6,7,8}", "{1,2,3,4,8,16}", "ok"),
            ("Split", "Shrink", "Partition", "Join", "Uncoarsen", "Flat", "Extend"))
    c.model("DistDeep", MC % ("", "{5}", "{2}", "Uneven"), expect=("invariant",), label="DistDeep/Uneven", workers=1)
    # the known finding: blocks that are not divided evenly
    c.model("DistDeep", MC % ("", "{1}", "{6}", "ok"), expect=("property",), label="DistDeep/6 blocks, K=4", workers=1)
    recs = mpi_seeds(c, exe, [((1, 2, 3, 4, 5, 8), ("small",), 25, 250, 1, 4), ((2, 4), ("mid",), 10, 100, 2, 8),
                              ((3, 7), ("mid",), 6, 60, 1, 4)], what="a session with a dKaMinPar object")
    c.notes["partitions"] = sum(r["ev"] == "part" for r in recs)
    c.validate("DistSessionTrace", split(recs, ("new",)), "INIT TInit\nNEXT TNext\n")
