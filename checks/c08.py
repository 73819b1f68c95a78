"""C08: clusterings respect labels, weight limit and communities."""
from .common import split, seeds
TECHNIQUE = "TLA+ models of parallel label propagation and of two-hop matching (TLC) + TLC validation of real clusterings"
LEVEL_NOTE = ("LabelPropagation.tla yields the guarantee (exact with one thread, at most one vertex per further thread above "
              "the limit otherwise), TwoHop.tla all schedules of 4 vertices meeting in one cell. Clusterings of the real code "
              "(all strategies, phases, tie breaking, communities, reused objects, 1..8 threads) are validated against it, "
              "hierarchies also for their communities.")
LP = ("SPECIFICATION Spec\nINVARIANTS WeightLimit Tracked NonNegative\nCHECK_DEADLOCK FALSE\nCONSTANTS Threads=%s Nodes={1,2,3} "
      "MaxWeight=%d Atomic=%s Moves=%d MaxVertexWeight=%d Variant=\"%s\"\n")
TH = ("SPECIFICATION Spec\nINVARIANTS SizeLimit Stars Tracked Maximal\nPROPERTY Terminates\n"
      "CONSTANTS Nodes=%s MaxSize=%d Mode=\"%s\" Variant=\"%s\"\n")
ML = ("SPECIFICATION Spec\nINVARIANTS WeightKept CutKept BlocksKept Faithful CommunitiesKept\nPROPERTY Ends\n"
      "CONSTANTS NumNodes=%d MaxLevels=3 MaxWeight=3 K=2 WithCommunities=%s Variant=\"%s\"\n")


def body(c):
    exe = c.build("coarsen")
    m = c.pick(4, 5)
    c.model("LabelPropagation", LP % ("{1,2}", 3, "FALSE", m, 2, "ok"), ("Pick", "Check", "Add", "Sub", "Move"), label="LabelPropagation/2 threads")
    c.model("LabelPropagation", LP % ("{1,2,3}", 2, "FALSE", 4, 1, "ok"), label="LabelPropagation/3 threads")
    c.model("LabelPropagation", LP % ("{1}", 3, "FALSE", 5, 2, "ok"), label="LabelPropagation/1 thread")
    c.model("LabelPropagation", LP % ("{1,2}", 2, "TRUE", 4, 2, "NoCheck"), expect=("invariant",), label="LabelPropagation/NoCheck")
    c.model("LabelPropagation", LP % ("{1,2}", 2, "FALSE", 4, 2, "ForgetOld"), expect=("invariant",), label="LabelPropagation/ForgetOld")
    nodes = c.pick("{1,2,3,4}", "{1,2,3,4,5}")
    c.model("TwoHop", TH % (nodes, 2, "match", "ok"), ("Read", "Enter", "Take", "Move"), label="TwoHop/match")
    c.model("TwoHop", TH % (nodes, 3, "cluster", "ok"), ("Read", "Enter", "Join"), label="TwoHop/cluster")
    for v in ("NoReset", "PlainRead"):
        c.model("TwoHop", TH % ("{1,2,3,4}", 2, "match", v), expect=("invariant", "property", "deadlock"), label="TwoHop/" + v)
    c.model("Multilevel", ML % (3, "TRUE", "ok"), label="Multilevel/communities")
    c.model("Multilevel", ML % (4, "TRUE", "IgnoreCommunities"), expect=("invariant",), label="Multilevel/IgnoreCommunities")
    recs = seeds(c, exe, [(("cluster", "small"), 400, 4000, 3, 6), (("cluster", "mid"), 80, 800, 4, 8),
                          (("cluster", "star"), 4, 30, 2, 4), (("hierarchy", "small"), 120, 1200, 2, 6),
                          (("hierarchy", "mid"), 20, 200, 2, 6)], what="clustering")
    c.validate("CoarseningTrace", split(recs), "INIT TInit\nNEXT TNext\n", label="CoarseningTrace/clustering")
