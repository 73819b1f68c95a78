"""C09: block moves respect limits, refinement keeps partitions valid and does what it promises."""
from .common import split, seeds
TECHNIQUE = "TLA+ models of FM searches, Jet and label propagation (TLC) + TLC validation of concurrent moves and refinement runs"
LEVEL_NOTE = ("FMSearch.tla: all schedules of up to two searches on small graphs; Jet.tla, LabelPropagation.tla. Eight threads move vertices "
              "into almost full blocks; label propagation, FM, Jet, the balancer and sequences of them run on random partitions and limits, "
              "and the specification recomputes weights, limits, cuts, local optimality and communities.")
FM = ("SPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\nCONSTANTS Workers={%s} V<-%s Edges<-%s Weight<-Mixed Limit=%d Variant=\"%s\"\n")
ALL = "Booked Once Exclusive Exact Improves Limited"
JET = "SPECIFICATION Spec\nINVARIANTS Best NeverWorse CopyIsBest\nPROPERTY Returns\nCHECK_DEADLOCK FALSE\nCONSTANTS Cuts={0,1,2,3,4} Rounds=3 Iterations=%d Variant=\"%s\"\n"


def models(c):
    acts = ("Poll", "Take", "Publish", "End", "Again")
    c.model("FMSearchMC", FM % (ALL, "1", "V5", "E5", 4, "ok"), acts, label="FMSearch/alone")
    c.model("FMSearchMC", FM % ("Booked Once Exclusive", "1,2", "V4", "E4", 4, "ok"), acts, label="FMSearch/two")
    # what two searches cannot promise
    c.model("FMSearchMC", FM % ("Exact", "1,2", "V4", "E4", 4, "ok"), expect=("invariant",), label="FMSearch/gains of two searches may be wrong")
    c.model("FMSearchMC", FM % ("Limited", "1,2", "V4", "Es", 3, "ok"), expect=("invariant",), label="FMSearch/two searches may overload a block")
    for v, n in (("NoClear", "1"), ("NoLock", "1,2"), ("Keep", "1"), ("NoLimit", "1")):
        c.model("FMSearchMC", FM % ("Booked Once Exclusive" if n != "1" else ALL, n, "V5" if n == "1" else "V4", "E5" if n == "1" else "E4", 4 if v != "NoClear" else 6, v), expect=("invariant",), label="FMSearch/" + v)
    c.model("Jet", JET % (c.pick(3, 4), "ok"), ("Iterate", "EndRound"))
    for v in ("StickyFlag", "NoRollback", "StaleCopy"):
        c.model("Jet", JET % (3, v), expect=("invariant",), label="Jet/" + v)


def body(c):
    exe = c.build("refine")
    models(c)
    recs = seeds(c, exe, [(("moves",), 12, 80, 3, 8), (("refine", "small"), 60, 600, 4, 8), (("refine", "mid"), 15, 150, 4, 8),
                           (("fm", "mid"), 15, 150, 4, 12)],
                 what="refinement", par=3)
    c.validate("RefinerTrace", split(recs), "INIT TInit\nNEXT TNext\n", label="RefinerTrace")
