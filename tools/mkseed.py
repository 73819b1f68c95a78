"""Creates a planted bug under /verif/seeded and tries it: python3 tools/mkseed.py SPEC.py [--nocheck]
SPEC.py defines id, property, edits [(file, old, new)], sets, demo (C++), run (shell, optional), needs, breaks."""
import json, os, shutil, subprocess, sys, time
V = "/verif"
WT = "/tmp/wt"
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
ns = {}
exec(open(sys.argv[1]).read(), ns)
D = os.path.join(V, "seeded", ns["id"])
os.makedirs(D, exist_ok=True)
if not os.path.exists(WT): print(sh("git -C /repo worktree add --detach %s HEAD" % WT).stderr[-200:])
sh("git -C %s checkout -q --detach $(git -C /repo rev-parse HEAD) && git -C %s checkout -- ." % (WT, WT))
for f in ("build.sh", "util.h"): shutil.copy(os.path.join(V, "tools/seedlib", f), D)
shutil.copytree(os.path.join(V, "tools/seedlib/kassert"), os.path.join(D, "kassert"), dirs_exist_ok=True)
open(os.path.join(D, "demo.cc"), "w").write(ns["demo"].lstrip("\n"))
run = ns.get("run", 'timeout 120 "$W/demo"')
open(os.path.join(D, "demo.sh"), "w").write("#!/bin/bash\n%s. \"$(dirname \"$0\")/build.sh\"\nbuild %s\n%s\n" % (ns.get("pre", ""), ns["sets"], run))
json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(os.path.join(D, "meta.json"), "w"), indent=1)
def demo():
    t = time.time(); p = subprocess.run(["bash", os.path.join(D, "demo.sh")], cwd=WT, capture_output=True, text=True)
    print("  demo rc", p.returncode, "%.0fs" % (time.time() - t), (p.stdout + p.stderr)[-300:].replace("\n", " | "))
    return p.returncode
good = demo()
for f, a, b in ns["edits"]:
    p = os.path.join(WT, f); s = open(p).read()
    assert s.count(a) == 1, (f, s.count(a), a)
    open(p, "w").write(s.replace(a, b))
open(os.path.join(D, "patch.diff"), "w").write(sh("git -C %s diff" % WT).stdout)
bad = demo()
ok = good == 0 and bad not in (0, 3)
print(ns["id"], "OK" if ok else "NOT OK")
if "--nocheck" not in sys.argv:
    t = time.time()
    for prop in [ns["property"]] + ns.get("also", []):
        p = sh("cd /verif && VERIF_REPO=%s VERIF_SEED=1 python3 check.py %s quick" % (WT, prop))
        print("  check", prop, "rc", p.returncode, "%.0fs" % (time.time() - t), [l[:220] for l in p.stdout.splitlines() if "VIOLATION" in l][:2], p.stderr[-200:] if p.returncode not in (0, 1) else "")
sh("git -C %s checkout -- ." % WT)
