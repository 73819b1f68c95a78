"""C07: contracting a clustering yields the quotient graph; projections keep cut and block weights."""
from .common import split, seeds
TECHNIQUE = "TLA+ model of the multilevel hierarchy (TLC) + TLC validation of real contractions, projections and hierarchies"
LEVEL_NOTE = ("Multilevel.tla: every graph with 4 vertices, every admissible clustering and partition, up to 3 levels. Real "
              "code: four contraction algorithms x three implementations, buffered and two-phase paths, CSR and compressed "
              "graphs, clusterings from singletons to one cluster, hierarchies of all presets; the specification decides "
              "that each coarse graph is the quotient and that projection keeps cut and block weights.")
ML = ("SPECIFICATION Spec\nINVARIANTS WeightKept CutKept BlocksKept Faithful CommunitiesKept\nPROPERTY Ends\n"
      "CONSTANTS NumNodes=%d MaxLevels=3 MaxWeight=3 K=2 WithCommunities=%s Variant=\"%s\"\n")


def body(c):
    exe = c.build("coarsen")
    c.model("Multilevel", ML % (4, "FALSE", "ok"), ("Coarsen", "Partition", "Refine", "Uncoarsen"))
    for v in ("DropParallel", "LeaderWeight"):
        c.model("Multilevel", ML % (4, "TRUE", v), expect=("invariant",), label="Multilevel/" + v)
    recs = seeds(c, exe, [(("contract", "small"), 250, 2500, 3, 6), (("contract", "mid"), 40, 400, 3, 6),
                          (("contract", "star"), 4, 30, 2, 4), (("contract", "dense"), 1, 6, 6, 12), (("contract", "hubs"), 1, 3, 4, 8), (("hierarchy", "small"), 120, 1200, 2, 6),
                          (("hierarchy", "mid"), 30, 300, 3, 6)], what="contracting clusterings")
    c.validate("CoarseningTrace", split(recs), "INIT TInit\nNEXT TNext\n", label="CoarseningTrace/contraction")
