"""C02: on graphs with unit vertex weights the balance constraint (imbalance, or explicit maximum weights)
holds."""
from .c01 import pipeline, cfg, sessions, record
TECHNIQUE = "TLA+ models of the object's pipeline (TLC) + TLC validation of recorded API histories"
LEVEL_NOTE = ("As C01; in addition every recorded partition of a graph with unit vertex weights is judged against the bound "
              "of the request (exact integer arithmetic). Presets without a balancing refiner are excluded.")


def body(c):
    exe = c.build("session")
    pipeline(c)
    plan = c.pick([(130, "small")] * 4 + [(30, "mid")] * 3 + [(4, "big")] * 2 + [(120, "small", "vary"), (15, "mid", "vary")],
                  [(600, "small")] * 8 + [(150, "mid")] * 12 + [(20, "big")] * 8
                  + [(600, "small", "vary")] * 8 + [(150, "mid", "vary")] * 4)
    recs = record(c, exe, plan)
    n = 0
    for s in sessions(recs):
        pre, uw = s[0].get("preset"), False
        if s[0].get("mode") in ("rb-only", "restricted"):
            pre = "noref"
        for r in s:
            if r["ev"] == "set":
                uw = not r["g"]["vw"]
            if r["ev"] == "part" and uw and pre not in ("noref", "restricted-vcycle"):
                n += 1
    c.notes["partitions_with_guarantee"] = n
    c.validate("SessionTrace", sessions(recs), cfg("TRUE", "FALSE"), shards=8)
