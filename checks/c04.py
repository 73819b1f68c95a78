"""C04: a compressed graph is the graph it was built from, however it is read."""
TECHNIQUE = "TLA+ models of encoding and of concurrent assembly (TLC) + TLC validation of everything read from compressed graphs"
LEVEL_NOTE = ("TLC encodes and decodes every neighborhood within 9 (thorough: 11) ids, split or not, weighted or not, and "
              "visits every schedule of the ticket protocol. The real code compresses generated graphs with all three "
              "builders, VarInt and StreamVByte, 32 and 64 bit ids; everything read back (whole, limited, stopped, parallel "
              "iteration; degrees; totals) is validated against CompressedGraphTrace.tla, which only knows the input graph.")
NB = ("INIT Init\nNEXT Next\nINVARIANTS ReadsAll SameNeighborhood Progress\nCHECK_DEADLOCK FALSE\n"
      "CONSTANTS IntervalLen=3 PartLen=4 NumNodes=%d HighDegree=%d Variant=\"%s\" Weighted=%s\n")
OC = "SPECIFICATION Spec\nINVARIANTS SlotsFree InOrder\nPROPERTY AllPlaced\nCONSTANTS Threads=%d Slots=%d Chunks=%d\n"


def models(c):
    n = c.pick(9, 11)
    c.model("CompressedNeighborhood", NB % (n, 100, "ok", "TRUE"), label="CompressedNeighborhood/weighted")
    c.model("CompressedNeighborhood", NB % (n, 5, "ok", "FALSE"), label="CompressedNeighborhood/split")
    c.model("CompressedNeighborhood", NB % (n, 5, "ok", "TRUE"), label="CompressedNeighborhood/split, weighted")
    for v in ("NoSkip", "KeepLast"):
        c.model("CompressedNeighborhood", NB % (9, 100, v, "FALSE"), expect=("invariant",), label="CompressedNeighborhood/" + v)
    c.model("OrderedChunks", OC % (3, 4, 9), ("Draw", "Read", "Write", "Unlock"))
    if c.thorough:
        c.model("OrderedChunks", OC % (5, 6, 14), label="OrderedChunks/5 threads")
    c.model("OrderedChunks", OC % (3, 3, 6), expect=("deadlock", "invariant", "property"), label="OrderedChunks/one slot less")


def split(recs):
    out = []
    for r in recs:
        if r["ev"] in ("graph", "tickets") or not out:
            out.append([])
        out[-1].append(r)
    return out


def body(c):
    exes = {n: c.build(n) for n in ("compress", "compress_svb", "compress64")}
    models(c)
    plan = []
    for i, n in enumerate(exes):
        for size, q, t in (("small", 120, 1500), ("mixed", 25, 300), ("star", 4, 40)):
            for j in range(c.pick(2 if n != "compress64" else 1, 4)):
                plan.append([exes[n], str(c.seed * 1000 + 10 * i + j), str(c.pick(q, t)), size])
    plan.append([exes["compress"], str(c.seed), str(c.pick(300, 5000)), "tickets"])
    recs = c.run_harness_many(plan, par=6, timeout=c.pick(80, 900), env={"VP_WALL": "1800"}, what="compressing graphs")
    c.notes["compressed_graphs"] = sum(r["ev"] == "view" and r["how"] in ("seq", "par", "map") for r in recs)
    c.validate("CompressedGraphTrace", split(recs), "INIT TInit\nNEXT TNext\n", heap="3g")
