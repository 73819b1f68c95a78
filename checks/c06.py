"""C06: rearranging a graph only renames its vertices; hidden isolated vertices come back unharmed."""
from .common import split, seeds
TECHNIQUE = "TLC validation of rearranged graphs, permutations, degree buckets and partitions against CoarseningTrace.tla"
LEVEL_NOTE = ("The specification decides isomorphism under the returned permutation (vertex weights, every weighted edge), "
              "the order of degree buckets, the graph left after cutting off isolated vertices and the partition after "
              "reintegrating them, for generated graphs (0..400 vertices, all shapes), any bucket function, 1..8 threads.")


def body(c):
    exe = c.build("coarsen")
    recs = seeds(c, exe, [(("reorder", "small"), 400, 5000, 3, 6), (("reorder", "mid"), 40, 400, 3, 6),
                             (("reorder", "hub"), 2, 10, 3, 8)], what="rearranging graphs")
    c.validate("CoarseningTrace", split(recs), "INIT TInit\nNEXT TNext\n", label="CoarseningTrace/rearranging")
