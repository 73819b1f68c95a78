"""C03: single-threaded histories are reproducible and independent of what other objects did before; input
arrays handed over for copying stay as they are."""
from .c01 import cfg, sessions, record
TECHNIQUE = "TLC validation of repeated API histories against the memoizing session specification"
LEVEL_NOTE = ("Session.tla remembers the result of every single-threaded call by its position in its history; the same "
              "history is replayed with a fresh object after unrelated sessions, and TLC requires equal results.")


def body(c):
    exe = c.build("session")
    plan = c.pick([(75, "det")] * 5 + [(60, "det", "vary")] * 2, [(400, "det")] * 12 + [(400, "det", "vary")] * 6)
    plan += [(1, "det", "terapart")] * c.pick(12, 60)     # the first partition of a process
    recs = record(c, exe, plan)
    # the session ids of different processes must not be confused
    off = 0
    groups, by = sessions(recs), []
    for g in groups:
        if g[0]["ev"] == "new" and g[0]["sid"] == 0 and g[0]["rep"] == 0:
            off += 1000
        if g[0].get("sid", -1) >= 0:
            g[0]["sid"] += off
            if g[0]["rep"] == 1:
                by[-1] += g          # keep the repetitions together
                continue
            by.append(list(g))
        else:
            by[-1] += g
    c.notes["repeated_sessions"] = len(by)
    c.validate("SessionTrace", by, cfg("FALSE", "TRUE"), shards=8)
