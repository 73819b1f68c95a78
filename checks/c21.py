"""C21: bipartitions are complete, exact and never get worse."""
from .common import split, seeds
TECHNIQUE = "TLA+ model of two-way local search (TLC) + TLC validation of real bipartitioners, refiners, pools and hierarchies"
LEVEL_NOTE = ("TwoWayFM.tla: all graphs, bipartitions, limits, move orders and stopping points up to a bound. All seven flat bipartitioners, the "
              "pool, the refiner, the sequential coarsener and the multilevel bipartitioner (with their objects reused) are validated.")
FM = ("SPECIFICATION Spec\nINVARIANTS Tracked NeverWorse\nCHECK_DEADLOCK FALSE\nCONSTANTS V=%s MaxW=%d MaxLim=3 Variant=\"%s\"\n")


def body(c):
    exe = c.build("bipart")
    c.model("TwoWayFM", FM % ("{1,2,3}", 2, "ok"), ("Move", "Undo"))
    if c.thorough:
        c.model("TwoWayFM", FM % ("{1,2,3,4}", 1, "ok"), ("Move", "Undo"), label="TwoWayFM/4")
    for v in ("AnyOverload", "Worse", "KeepMoves", "NoUndo"):
        c.model("TwoWayFM", FM % ("{1,2,3}", 2, v), expect=("invariant",), label="TwoWayFM/" + v)
    recs = seeds(c, exe, [(("flat",), 15, 120, 4, 8), (("hier",), 40, 250, 4, 8), (("ml",), 60, 400, 3, 8)], what="bipartitioning")
    c.validate("BipartTrace", split(recs), "INIT TInit\nNEXT TNext\n", label="BipartTrace/bipartitions")
