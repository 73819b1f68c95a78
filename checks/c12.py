"""C12: blocks are divided the way the tree of block numbers prescribes."""
from .common import split, seeds
TECHNIQUE = "TLA+ models of the tree of block numbers and of the memory of recursive bipartitioning (TLC) + TLC validation of real divisions"
LEVEL_NOTE = ("SplitTreeMC.tla: every way to extend any partition to K blocks, all K up to a bound, agrees with the closed formulas; "
              "SubgraphMemory.tla: all ways to cut a region up. The real arithmetic, subgraph extraction (parallel, lazy, sequential in place), "
              "copying of sub-partitions and all ways of extending partitions are validated against the tree.")
ST = ("SPECIFICATION Spec\nINVARIANTS NonEmpty Done Formulas Balanced\nPROPERTY Nested\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxK=%d Variant=\"%s\"\n")
SM = ("SPECIFICATION Spec\nINVARIANTS Disjoint Fits\nPROPERTY Inside\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxN=%d MaxF=%d Variant=\"%s\"\n")


def body(c):
    exe = c.build("bipart")
    c.model("SplitTreeMC", ST % (c.pick(40, 150), "ok"), ("Extend",))
    for v in ("NoReverse", "Floor"):
        c.model("SplitTreeMC", ST % (20, v), expect=("invariant",), label="SplitTreeMC/" + v)
    c.model("SubgraphMemory", SM % (c.pick(5, 6), c.pick(5, 6), "ok"), ("Divide",))
    c.model("SubgraphMemory", SM % (5, 5, "OnePad"), expect=("invariant", "property", "action property"), label="SubgraphMemory/OnePad")
    arith = seeds(c, exe, [(("arith",), 50, 300, 2, 4)], what="arithmetic of blocks")
    c.validate("BipartTrace", split(arith, ("leaves",)), "INIT TInit\nNEXT TNext\n", label="BipartTrace/arithmetic")
    recs = seeds(c, exe, [(("extract",), 80, 600, 4, 8), (("extend",), 80, 500, 4, 8),
                           (("cycles",), 30, 200, 3, 8)], what="extracting blocks and extending partitions")
    c.validate("BipartTrace", split(recs), "INIT TInit\nNEXT TNext\n", label="BipartTrace/blocks")
