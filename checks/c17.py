"""C17: parallel primitives and integer arithmetic equal their sequential definitions."""
from .common import seeds
TECHNIQUE = "TLA+ models of the aligned prefix sum, work distribution and chunk cursor (TLC) + TLC validation of recorded results"
LEVEL_NOTE = ("AlignedPrefixSum.tla and Ranges.tla: all inputs and orders of workers within small bounds. The results of the primitives on random "
              "arrays (up to 3000 elements, 1-8 threads, several types, extreme values) are checked against their definitions in PrimsTrace.tla.")
A = ("INIT Init\nNEXT Next\nINVARIANTS Placed Compact Cover\nCHECK_DEADLOCK FALSE\n"
     "CONSTANTS MaxLen=%d Aligns={%s} Vals={%s} MaxP=%d Variant=\"%s\"\n")
R = ("INIT Init\nNEXT Next\nINVARIANTS Partition Balanced Inverse InBounds Once All\nCHECK_DEADLOCK FALSE\n"
     "CONSTANTS MaxN=%d MaxSize=%d MaxBufs=%d MaxBuf=%d Variant=\"%s\"\n")


def body(c):
    exe = c.build("prims")
    c.model("AlignedPrefixSum", A % ((4, "0,2,8", "0,1,3", 3, "ok") if not c.thorough else (5, "0,1,4,8", "0,3,5", 4, "ok")), ("LocalSum", "Scan", "Add"))
    for v in ("RawLast", "AlignFour", "ShiftFirst"):
        c.model("AlignedPrefixSum", A % (3, "0,2,8", "0,1,3", 2, v), expect=("invariant",), label="AlignedPrefixSum/" + v)
    c.model("Ranges", R % ((30, 12, 4, 3, "ok") if not c.thorough else (60, 24, 5, 3, "ok")), ("Element", "Begin", "Find", "Visit", "End"))
    for v in ("NoFirst", "SkipOne"):
        c.model("Ranges", R % (12, 6, 3, 2, v), expect=("invariant",), label="Ranges/" + v)
    recs = seeds(c, exe, [((), 600, 8000, 6, 12)], what="results of the primitives")
    for r in recs:
        c.notes[r["ev"]] = c.notes.get(r["ev"], 0) + 1
    if len(c.notes) < 22:
        raise RuntimeError("some primitives were not exercised: %s" % c.notes)
    c.validate("PrimsTrace", [[r] for r in recs], "INIT TInit\nNEXT TNext\n")
