"""C22: scattering blocks, replicating graphs, choosing the best partition."""
from .common import split, mpi_seeds
TECHNIQUE = "TLA+ model of assigning blocks to PEs (TLC) + TLC validation of recorded extractions, copies and replications"
LEVEL_NOTE = ("BlockHolders.tla: all numbers of blocks and PEs up to 24 (64 thorough). Subgraphs received by all PEs, their division and its way back, "
              "copies on every PE or PE groups and the choice of the best partition are recomputed by the specification.")


def body(c):
    exe = c.build("ddata")
    c.model("BlockHoldersMC", "INIT Init\nNEXT Next\nINVARIANT Sound\nCHECK_DEADLOCK FALSE\nCONSTANT Largest=%d\n" % c.pick(24, 64), ("MoreBlocks", "MorePEs"))
    recs = mpi_seeds(c, exe, [((1, 2, 3, 4, 5, 6, 7, 8), ("extract",), 60, 500, 1, 3), ((1, 2, 3, 4, 5, 6, 8), ("replicate",), 60, 500, 1, 3)],
                     what="distributed partition")
    for k in ("extract", "divided", "gathered", "best"):
        c.notes[k] = sum(r["ev"] == k for r in recs)
    c.validate("DistBlocksTrace", split(recs), "INIT BInit\nNEXT BNext\n")
