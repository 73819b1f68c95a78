"""C13: priority queues always give an extreme element and lose none."""
from .common import split, seeds
TECHNIQUE = "TLA+ model of addressable heaps (TLC) + TLC validation of random histories of every priority queue"
LEVEL_NOTE = ("BinaryHeap.tla: all histories of push, pop, change, remove and clear over up to 6 ids and 3 keys (arity 2 and 4). Histories of all "
              "queues of binary_heap.h (key types, forests, shared positions, reuse) are checked against PriorityTrace.tla after every operation.")
M = "INIT Init\nNEXT Next\nINVARIANTS Content Positions Extreme Ordered\nCONSTANTS Ids=%s Keys={%s} Arity=%d Variant=\"%s\"\n"
ids = lambda n: "{%s}" % ",".join(str(i + 1) for i in range(n))


def body(c):
    exe = c.build("pq")
    c.model("BinaryHeap", M % (ids(5), "1,2,3", 2, "ok"), ("Push", "Pop", "Change", "Remove", "Clear"))
    c.model("BinaryHeap", M % (ids(c.pick(6, 7)), c.pick("1,2", "1,2,3"), 4, "ok"), label="BinaryHeap/4")
    for v in ("FirstChild", "KeepPosition", "OneWay"):
        c.model("BinaryHeap", M % (ids(5), "1,2,3", 2, v), expect=("invariant",), label="BinaryHeap/" + v)
    recs = seeds(c, exe, [((), 300, 4000, 6, 12)], what="histories of priority queues")
    c.validate("PriorityTrace", split(recs, ("new",)), "INIT TInit\nNEXT TNext\n")
