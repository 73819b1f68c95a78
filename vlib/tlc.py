"""Running TLC: model checking of the specifications and validation of recorded traces."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """TLC could not do its job (not a verdict)"""


class Result:
    def __init__(self):
        self.ok = False
        self.kind = None       # None | "deadlock" | "invariant" | "property" | "postcondition" | "eval" | "assert"
        self.detail = ""
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.out = ""
        self.coverage = {}
        self.last = {}


def run(module, cfg, env=None, workers=1, timeout=600, simulate=None, extra=(), heap="2g", dfs=False, seed=None,
        records=None):
    """Runs TLC on specs/<module>.tla with configuration text `cfg` (or the name of a .cfg file).

    With `records` = length of a recorded trace: the trace is accepted iff the state graph has depth
    records+1 (every step of a trace specification consumes exactly one record)."""
    d = tempfile.mkdtemp(prefix="tlc.")
    try:
        if cfg.endswith(".cfg") and "\n" not in cfg:
            cfg = open(os.path.join(SPECS, cfg)).read()
        cfgp = os.path.join(d, module + ".cfg")
        open(cfgp, "w").write(cfg)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-Dvp=1",
               "-DTLA-Library=" + SPECS]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", CP, "tlc2.TLC", "-metadir", os.path.join(d, "m"), "-config", cfgp, "-workers", str(workers),
                "-noGenerateSpecTE"]
        if records is not None:
            cmd += ["-deadlock"]
        if simulate:
            cmd += ["-simulate", simulate]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd += list(extra) + [os.path.join(SPECS, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TLCError("TLC timed out after %ss on %s" % (timeout, module))
        r = Result()
        r.out = o = p.stdout
        m = None
        for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", o):
            pass
        if m:
            r.generated = int(m.group(1).replace(",", ""))
            r.distinct = int(m.group(2).replace(",", ""))
        else:
            for m in re.finditer(r"The number of states generated: ([\d,]+)", o):
                r.generated = int(m.group(1).replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", o)
        if m:
            r.depth = int(m.group(1))
        for m in re.finditer(r"^<(\w+) line .*?>: ([\d,]+):([\d,]+)", o, re.M):
            r.coverage[m.group(1)] = r.coverage.get(m.group(1), 0) + int(m.group(3))
        rc = p.returncode
        if rc == 0:
            r.ok = True
        elif rc == 11 or "Deadlock reached" in o:
            r.kind = "deadlock"
        elif rc == 12 or re.search(r"Invariant \S+ is violated", o):
            r.kind = "invariant"
        elif rc == 13 or "Temporal properties were violated" in o:
            r.kind = "property"
        elif rc == 10 or "assumption" in o.lower() and "false" in o.lower():
            r.kind = "assert"
        elif re.search(r"POSTCONDITION|Post-?condition", o, re.I) and "violated" in o:
            r.kind = "postcondition"
        elif "evaluating" in o or "Attempted" in o or rc in (75, 76, 77):
            r.kind = "eval"
        else:
            raise TLCError("TLC ended with %d on %s:\n%s" % (rc, module, "\n".join(
                x for x in o.splitlines() if not x.startswith(("Parsing", "Semantic", "Warning", "(Use")))[:3000]))
        if r.ok and records is not None and r.depth != records + 1:
            r.ok, r.kind, r.detail = False, "rejected", "only %d of %d records are explained" % (r.depth - 1, records)
            r.last["l"] = str(r.depth)
            return r
        if not r.ok:
            errs = [i for i in range(len(o)) if o.startswith("Error:", i)]
            r.detail = o[errs[0]:errs[0] + 6000] if errs else o[-3000:]
            for m in re.finditer(r"^(?:/\\ )?(\w+) = (.*)$", o, re.M):
                r.last[m.group(1)] = m.group(2)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def shards(lines, n):
    """splits a list of trace *groups* into at most n shards of similar size"""
    tot = sum(len(x) for x in lines)
    out, cur, size = [], [], 0
    for x in lines:
        cur.append(x)
        size += len(x)
        if size >= tot / n and len(out) < n - 1:
            out.append(cur)
            cur, size = [], 0
    if cur:
        out.append(cur)
    return out


def run_many(jobs, par=8):
    """jobs: list of kwargs for run(); -> results in order"""
    with ThreadPoolExecutor(par) as ex:
        return list(ex.map(lambda j: run(**j), jobs))
