"""Common frame of all checks: building, running harnesses, TLC, verdict and evidence."""
import json, os, signal, subprocess, sys, time, hashlib, re, shutil, tempfile, traceback
from concurrent.futures import ThreadPoolExecutor
from . import build as B, tlc
from .harnesses import H

VERIF = B.VERIF
TRACE_CFG = "INIT Init\nNEXT Next\n"


class Violation(Exception):
    pass


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s." % pid)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.models = {}
        self.validations = {}
        self.assumptions = []
        self.violations = []
        self.known_hit = []
        self.notes = {}
        self.pool = ThreadPoolExecutor(8)
        self._pending = []
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = [k for k in json.load(open(kf)) if k.get("property") == pid and k.get("status") == "known"] \
            if os.path.exists(kf) else []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ build
    def build(self, name):
        exe = B.build(name, **H[name])
        self.log("built", os.path.basename(exe))
        return exe

    # ------------------------------------------------------------------ models
    def model(self, module, cfg, expect_actions=(), expect=None, **kw):
        """Model-checks a specification in the background. `expect` names the kind of violation a
        deliberately broken variant of the design has to show (non-vacuity of its properties)."""
        label = kw.pop("label", module)

        def job():
            kw.setdefault("workers", 2)
            extra = list(kw.pop("extra", ()))
            if expect_actions:
                extra += ["-coverage", "1"]
            r = tlc.run(module, cfg, extra=extra, **kw)
            return r

        self._pending.append((label, expect_actions, expect, self.pool.submit(job)))

    def join_models(self):
        for label, acts, expect, fut in self._pending:
            r = fut.result()
            if expect is not None:
                if r.ok or r.kind not in expect:
                    raise RuntimeError("model %s: expected a %s violation, got %s" % (label, expect, r.kind or "none"))
                self.models[label] = {"expected_violation_found": r.kind, "states": r.distinct}
            else:
                if not r.ok:
                    raise RuntimeError("model %s does not satisfy its properties (%s):\n%s" % (label, r.kind, r.detail))
                missing = [a for a in acts if not r.coverage.get(a)]
                if missing:
                    raise RuntimeError("model %s: actions never taken: %s" % (label, missing))
                self.models[label] = {"states": r.distinct, "transitions": r.generated, "depth": r.depth}
                if acts:
                    self.models[label]["actions_taken"] = {a: r.coverage[a] for a in acts}
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
        self._pending = []

    # ------------------------------------------------------------------ harness
    def run_harness(self, cmd, timeout=120, env=None, what="", stdin=None, cwd=None, ok_codes=(0,), allow_fail=False):
        """Runs the real code. -> (list of parsed records, raw text). Crash/hang => violation."""
        attempts = 0
        while True:
            attempts += 1
            outp = os.path.join(tempfile.mkdtemp(prefix="o", dir=self.scratch), "out")
            e = dict(os.environ)
            e.update(env or {})
            if cmd[0] == "mpirun":                                   # concurrent runs race for a common session directory
                e["TMPDIR"] = tempfile.mkdtemp(prefix="m", dir=self.scratch)
            with open(outp, "w") as f, open(outp + ".err", "w") as fe:
                p = subprocess.Popen(cmd, stdout=f, stderr=fe, env=e, stdin=subprocess.PIPE if stdin else subprocess.DEVNULL,
                                     cwd=cwd or self.scratch, start_new_session=True)
                try:
                    p.communicate(stdin.encode() if stdin else None, timeout=timeout)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    try:
                        os.killpg(p.pid, signal.SIGTERM)             # mpirun ends its processes
                        try:
                            p.wait(timeout=5)
                        except subprocess.TimeoutExpired:
                            pass
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                    rc = "timeout"
            text = open(outp, errors="replace").read()
            err = open(outp + ".err", errors="replace").read()
            shutil.rmtree(os.path.dirname(outp), ignore_errors=True)
            if rc in ok_codes:
                recs = []
                for line in text.splitlines():
                    if line.startswith("{"):
                        try:
                            recs.append(json.loads(line))
                        except ValueError:
                            self.violation("unparsable output of the harness %s" % what,
                                           {"cmd": cmd, "line": line[:2000]})
                return recs, text
            if allow_fail:
                return None, (rc, text, err)
            if attempts < 4 and "orte_init failed" in err:           # the launcher failed, not the code under test
                self.log("mpirun could not start - running it again")
                time.sleep(attempts)
                continue
            if rc in (-9, 137, "timeout") and attempts == 1:
                self.log("harness ended with", rc, "- running it again")
                if rc == "timeout":
                    timeout *= 1.5
                continue
            if rc in (-9, 137):
                raise RuntimeError("the harness was killed twice: %s" % cmd)
            last = text.splitlines()[-1:] if text else []
            self.violation("%s: the code under test %s" % (what or os.path.basename(cmd[0]),
                           "did not terminate within %ss" % timeout if rc == "timeout" else "crashed or reported failure (exit %s)" % rc),
                           {"cmd": cmd, "exit": rc, "stderr": err[-3000:], "last_output": last and last[0][:3000]})

    def run_harness_many(self, cmds, par=4, **kw):
        with ThreadPoolExecutor(par) as ex:
            res = list(ex.map(lambda c: self.run_harness(c, **kw)[0], cmds))
        return [r for x in res for r in x]

    # ------------------------------------------------------------------ validation
    def validate(self, module, groups, cfg=TRACE_CFG, label=None, shards=8, timeout=400, env=None, count=None,
                 sample=True, context=None, dfs=False, heap="3g"):
        """Validates recorded behaviours (list of lists of records) against a trace specification."""
        label = label or module
        groups = [g for g in groups if g]
        if not groups:
            raise RuntimeError("no traces for " + label)
        parts = tlc.shards(groups, shards)
        files = []
        for i, part in enumerate(parts):
            fn = os.path.join(self.scratch, "%s.%d.%d.ndjson" % (label.replace("/", "_"), i, time.time_ns()))
            with open(fn, "w") as f:
                for g in part:
                    for r in g:
                        f.write(json.dumps(r, separators=(",", ":")) + "\n")
            files.append(fn)

        def one(i):
            e = dict(env or {})
            e["TRACE"] = files[i]
            n = sum(len(g) for g in parts[i])
            r = tlc.run(module, cfg, env=e, timeout=timeout, dfs=dfs, heap=heap, records=n)
            if not r.ok:                                         # only a repeated rejection counts
                r = tlc.run(module, cfg, env=e, timeout=timeout, dfs=dfs, heap=heap, records=n)
            return r
        try:
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(one, range(len(parts))))
        except tlc.TLCError:
            self.log("TLC problem, trying once more")
            with ThreadPoolExecutor(2) as ex:
                res = list(ex.map(one, range(len(parts))))
        nrec = sum(len(g) for g in groups)
        v = self.validations.setdefault(label, {"behaviours": 0, "events": 0, "states": 0})
        v["behaviours"] += len(groups)
        v["events"] += nrec
        for i, r in enumerate(res):
            v["states"] += r.distinct
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
            if r.ok:
                self.cov["traces_validated_against_impl"] += len(parts[i])
                continue
            l = None
            if "l" in r.last and r.last["l"].isdigit():
                l = int(r.last["l"])
            flat = [(gi, x) for gi, g in enumerate(parts[i]) for x in g]
            rec, grp = None, None
            if l is not None and 1 <= l <= len(flat):
                gi, rec = flat[l - 1]
                grp = parts[i][gi]
            self.violation("%s: the specification rejects a behaviour of the real code (%s)" % (label, r.kind),
                           {"context": context, "rejected_record": rec, "behaviour": grp, "position": l,
                            "tlc": r.detail[:4000]}, record=rec, label=label)
        if sample and len(self.cov["samples"]) < 4:
            s = json.dumps(groups[len(groups) // 2])
            self.cov["samples"].append({"from": label, "behaviour": s if len(s) < 3000 else s[:3000] + "..."})
        self.log("validated %s: %d behaviours, %d events" % (label, len(groups), nrec))

    # ------------------------------------------------------------------ verdict
    def violation(self, text, data, record=None, label=None):
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        blob = json.dumps({"property": self.pid, "what": text, "seed": self.seed, "tier": self.tier, "data": data},
                          indent=1, default=str)
        path = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.sha1(blob.encode()).hexdigest()[:10]))
        open(path, "w").write(blob)
        raise Violation(text, path, data)

    def evidence(self):
        cov = dict(self.cov)
        cov["models"] = self.models
        cov["trace_validation"] = self.validations
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        text = json.dumps(ev, indent=1)
        if len(text) > 60000:
            ev["coverage"]["samples"] = [{"from": s["from"], "behaviour": s["behaviour"][:500]} for s in cov["samples"]]
            text = json.dumps(ev, indent=1)
        open(p, "w").write(text)


def main(pid, body, level="model_checking"):
    c = Check(pid, level)
    rc = 2
    try:
        try:
            body(c)
            c.join_models()
            for k in c.known:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]), flush=True)
            rc = 0
        except Violation as v:
            text, path, data = v.args
            c.violations.append(text)
            print(json.dumps(data, default=str)[:3000], flush=True)
            print("%s" % text, flush=True)
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            rc = 1
        except B.BuildError as e:
            print("BUILD ERROR: %s" % e, flush=True)
            rc = 2
        except Exception:
            traceback.print_exc()
            rc = 3
        if rc in (0, 1):
            c.evidence()
        c.log("exit", rc)
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)
        c.pool.shutdown(wait=False, cancel_futures=True)
    sys.stdout.flush()
    os._exit(rc)
