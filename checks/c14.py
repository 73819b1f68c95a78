"""C14: containers behave as the maps, sets and sequences they replace."""
from .common import split, seeds
TECHNIQUE = "TLA+ models of hash tables, marks and sparse sets (TLC) + TLC validation of random histories of every container"
LEVEL_NOTE = ("FlatMap.tla, SparseSet.tla, Marker.tla: all histories over few keys, all hash functions, stamps that run out. Histories of all containers "
              "(maps, markers, queue, arrays, vectors; several threads for shared ones) are checked against ContainersTrace.tla.")
F = ("INIT Init\nNEXT Next\nINVARIANTS Faithful SizeOK NoDuplicates\nCHECK_DEADLOCK FALSE\n"
     "CONSTANTS Keys={1,2,3} MaxVal=%d MaxStamp=3 MaxCap=8 Variant=\"%s\"\n")
S = "INIT Init\nNEXT Next\nINVARIANTS Faithful SizeOK\nCONSTANTS N=%d Vals={1,2} Variant=\"%s\"\n"
K = "INIT Init\nNEXT Next\nINVARIANTS Faithful\nCONSTANTS Elements={1,2,3} Markers=%d Bits=5 MaskBits=%d Variant=\"%s\"\n"
T = "INIT TInit\nNEXT TNext\n"


def body(c):
    exe = c.build("containers")
    c.model("FlatMap", F % (c.pick(1, 2), "ok"), ("Existing", "Insert", "Grow", "Clear") if c.thorough else ("Insert", "Grow", "Clear"))
    for v in ("OldStamp", "AllEntries", "NoRefind", "KeepSize"):
        c.model("FlatMap", F % (1, v), expect=("invariant",), label="FlatMap/" + v)
    c.model("SparseSet", S % (c.pick(3, 4), "ok"), ("Set", "Remove", "Clear"))
    for v in ("NoRepoint", "NoKeyCheck", "NoBound"):
        c.model("SparseSet", S % (3, v), expect=("invariant",), label="SparseSet/" + v)
    c.model("Marker", K % (2, 5, "ok"), ("Mark", "Reset"))
    for m, b, v in ((2, 4, "ok"), (1, 5, "NoClear"), (2, 5, "Overwrite")):
        c.model("Marker", K % (m, b, v), expect=("invariant",), label="Marker/%s/%d" % (v, b))
    recs = seeds(c, exe, [(("map",), 350, 2500, 4, 10), (("set",), 200, 1500, 2, 6), (("seq",), 300, 2500, 2, 6), (("par",), 300, 2000, 2, 8),
                          (("wrap",), 1, 2, 2, 4)], what="histories of containers")
    c.validate("ContainersTrace", split(recs, ("new", "shared", "list", "circular")), T)
