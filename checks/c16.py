"""C16: the executables do to the given graph what they say."""
import os
from .common import split
TECHNIQUE = "TLC validation of what the executables print and write against a TLA+ specification of their results"
LEVEL_NOTE = ("ToolsTrace.tla derives partition summaries, rearranged graphs, components, properties, attached weights and dumped "
              "configurations from the input graph (or the options); all executables are run as processes on random files.")
T = "INIT TInit\nNEXT TNext\n"
EXES = ("kaminpar", "libpart", "connected_components", "graph_attach_weights", "graph_compression", "graph_properties",
        "graph_rearrangement", "partition_properties", "dkaminpar")
DRIVER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "tools_driver.py")


def body(c):
    names = ["%s=%s" % (n, c.build(n)) for n in EXES]
    plan = c.pick([("part", 120)] * 8 + [("tools", 60)] * 6 + [("config", 5)] * 4 + [("dist", 6)] * 4,
                  [("part", 900)] * 16 + [("tools", 500)] * 16 + [("config", 25)] * 8 + [("dist", 60)] * 8)
    plan.sort(key=lambda x: x[0] != "dist")
    cmds = [["python3", DRIVER, str(c.seed * 1000 + i), str(n), mode] + names for i, (mode, n) in enumerate(plan)]
    recs = c.run_harness_many(cmds, par=5, timeout=800, what="running the executables")
    for e in ("part", "dpart", "config", "components", "weights", "rearranged"):
        c.notes[e] = sum(r["ev"] == e for r in recs)
    c.notes["rejected_calls"] = sum(r["ev"] == "part" and r["rc"] != 0 for r in recs)
    c.notes["same_as_library"] = sum(r["ev"] == "part" and r["lib"] != [] for r in recs)
    c.validate("ToolsTrace", split(recs, ("graph",)), T, label="ToolsTrace")
