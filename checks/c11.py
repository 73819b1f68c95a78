"""C11: gain caches are exact."""
from .common import split, seeds
TECHNIQUE = "TLA+ models of a row under concurrent moves and of its compact hash table (TLC) + TLC validation of real gain caches"
LEVEL_NOTE = ("GainCache.tla: all schedules of 3 movers on one row, plain and hashed; CompactHashMap.tla: all histories of a table that "
              "may fill up. All 15 cache/delta cache/graph combinations are driven with parallel moves and overlays and every "
              "reported connection, gain, border flag and iteration is recomputed by the specification.")
GC = ("SPECIFICATION Spec\nINVARIANTS Exact Capacity Readable\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\nCONSTANTS Threads=%s K=3 MaxWeight=2 "
      "Moves=%d Hashed=%s Variant=\"%s\"\n")
HM = ("SPECIFICATION Spec\nINVARIANTS Faithful NoDuplicates\nCHECK_DEADLOCK FALSE\nCONSTANTS Size=4 Keys={0,1,2,3,4,5,6,7} MaxTotal=%d Variant=\"%s\"\n")


def body(c):
    exe = c.build("gains")
    m = c.pick(3, 5)
    c.model("GainCache", GC % ("{1,2,3}", m, "TRUE", "ok"), ("Start", "Lock", "DecWrite", "IncWrite"), label="GainCache/hashed")
    c.model("GainCache", GC % ("{1,2,3}", m, "FALSE", "ok"), ("Start", "Dec", "Inc"), label="GainCache/plain")
    for v, h in (("NoLock", "TRUE"), ("PlainAdd", "FALSE"), ("KeepOld", "TRUE")):
        c.model("GainCache", GC % ("{1,2}", 4, h, v), expect=("invariant",), label="GainCache/" + v)
    c.model("CompactHashMap", HM % (c.pick(5, 7), "ok"), ("Increase", "Decrease"))
    for v in ("NoRepair", "AlwaysMove", "NoWrap"):
        c.model("CompactHashMap", HM % (5, v), expect=("invariant",), label="CompactHashMap/" + v)
    recs = seeds(c, exe, [(("small",), 8, 60, 3, 8), (("mid",), 5, 40, 3, 8)], what="gain cache")
    c.validate("GainCacheTrace", split(recs), "INIT TInit\nNEXT TNext\n", label="GainCacheTrace")
