"""C01: every returned partition assigns all of the caller's vertices to blocks 0..k-1, and the returned
number is its cut."""
TECHNIQUE = "TLA+ models of the object's pipeline (TLC) + TLC validation of recorded API histories"
LEVEL_NOTE = ("TLC visits every history of the pipeline model (rearrange, cut off, partition, reintegrate, map back) on all "
              "graphs of up to 3 (thorough: 4) vertices; histories of the real object (all presets, all ways of handing over "
              "a graph, all ways of asking for a partition) are recorded and validated record by record against Session.tla. "
              "Trusts TLC, the recorder, and that random histories are representative.")
INV = ("INVARIANTS CompleteAnswer CutOfAnswer BalancedAnswer SameGraph CoreHasAllEdges\n"
       "CHECK_DEADLOCK FALSE\nINIT Init\nNEXT Next\n")
ACTIONS = ("SetGraph", "Call", "Rearrange", "CutOff", "PartitionCore", "Reintegrate", "Return")


def pipeline(c):
    c.model("Pipeline", "CONSTANTS MaxN=3 MaxK=2 MaxCalls=3 Degree=TRUE Variant=\"ok\"\n" + INV, ACTIONS)
    c.model("Pipeline", "CONSTANTS MaxN=3 MaxK=2 MaxCalls=3 Degree=FALSE Variant=\"ok\"\n" + INV, label="Pipeline/natural")
    for v in ("NoMapBack", "ForgetIsolated", "FillTooMuch"):
        c.model("Pipeline", "CONSTANTS MaxN=3 MaxK=2 MaxCalls=3 Degree=TRUE Variant=\"%s\"\n" % v + INV,
                expect=("invariant",), label="Pipeline/" + v, workers=1)
    if c.thorough:
        c.model("Pipeline", "CONSTANTS MaxN=4 MaxK=3 MaxCalls=2 Degree=TRUE Variant=\"ok\"\n" + INV, ACTIONS,
                label="Pipeline/4", workers=4, timeout=1500)


def cfg(balance, memo):
    return "INIT TInit\nNEXT TNext\nCONSTANTS CheckBalance=%s CheckMemo=%s\n" % (balance, memo)


def sessions(recs):
    """splits records into sessions"""
    out, cur = [], []
    for r in recs:
        if r["ev"] == "new" and cur:
            out.append(cur)
            cur = []
        cur.append(r)
    if cur:
        out.append(cur)
    return out


def record(c, exe, plan, par=4):
    cmds = [[exe, str(c.seed * 1000 + i), str(n), size] + list(rest) for i, (n, size, *rest) in enumerate(plan)]
    return c.run_harness_many(cmds, par=par, timeout=240, what="a session with a KaMinPar object")


def body(c):
    exe = c.build("session")
    pipeline(c)
    plan = c.pick([(150, "small"), (150, "small"), (30, "mid"), (30, "mid"), (5, "big"), (5, "big"),
                   (180, "small", "vary"), (180, "small", "vary"), (60, "mid", "vary"), (60, "mid", "vary"), (60, "mid", "vary")],
                  [(600, "small")] * 8 + [(150, "mid")] * 8 + [(20, "big")] * 8 + [(600, "small", "vary")] * 8 + [(150, "mid", "vary")] * 4)
    recs = record(c, exe, plan)
    c.notes["partitions"] = sum(r["ev"] == "part" for r in recs)
    c.notes["presets"] = sorted({r["preset"] for r in recs if r["ev"] == "new"})
    c.notes["modes"] = sorted({r["mode"] for r in recs if r["ev"] == "new"})
    c.validate("SessionTrace", sessions(recs), cfg("FALSE", "FALSE"), shards=8, heap="3g")
