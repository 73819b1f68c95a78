"""C23: distributed refinement, balancing and clustering."""
from .common import split, mpi_seeds
TECHNIQUE = "TLA+ model of probabilistic moves with rollback (TLC) + TLC validation of recorded refinements and clusterings"
LEVEL_NOTE = ("DistMoves.tla: all choices and message orders of 2-3 PEs over 2 rounds. In recorded runs of every refiner, balancer and clusterer the "
              "specification recomputes block weights, cuts and cluster weights and checks what the algorithm promises.")


def body(c):
    exe = c.build("drefine")
    inv = "SPECIFICATION Spec\nINVARIANT Agree\nINVARIANT NoNewOverload\nINVARIANT Together\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n"
    act = ("Move", "Reduce", "Commit", "Rollback", "Receive", "Finish", "Again")
    c.model("DistMoves", inv + "CONSTANT PEs=2\nCONSTANT Vs=4\nCONSTANT Blocks=2\nCONSTANT Lim=3\nCONSTANT Rounds=2\n", act)
    c.model("DistMoves", inv + "CONSTANT PEs=3\nCONSTANT Vs=%d\nCONSTANT Blocks=%d\nCONSTANT Lim=%d\nCONSTANT Rounds=2\n" % c.pick((3, 3, 2), (5, 2, 4)), act)
    recs = mpi_seeds(c, exe, [((1, 2, 3, 4, 5, 7, 8), ("refine",), 45, 300, 1, 4), ((1, 2, 4, 8), ("refine", "clp"), 25, 200, 1, 3),
                              ((1, 2, 3, 5), ("refine", "cbal"), 30, 200, 1, 3), ((2, 4), ("refine", "jet"), 25, 200, 1, 3),
                              ((2, 3), ("refine", "nbal"), 25, 200, 1, 3), ((1, 2, 3, 5, 8), ("cluster",), 45, 300, 1, 3)],
                     what="distributed refinement")
    for k in ("refined", "clustered"):
        c.notes[k] = sum(r["ev"] == k for r in recs)
    c.validate("DistRefineTrace", split(recs), "INIT DInit\nNEXT DNext\n")
