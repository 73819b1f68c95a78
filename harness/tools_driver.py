"""Runs the executables of KaMinPar on random graphs and records what they print and write, one JSON record per line.

  tools_driver.py <seed> <count> part|tools|config|dist name=executable ...

All files are kept in a scratch directory that is removed at the end.
"""
import json, os, random, re, shutil, struct, subprocess, sys, tempfile, time

SEED, COUNT, MODE = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
EXE = dict(a.split("=", 1) for a in sys.argv[4:])
rng = random.Random(SEED * 7919 + len(MODE))
os.environ.update(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
DIR = tempfile.mkdtemp(prefix="vp-tools-")


def coin(a, b):
    return rng.randrange(b) < a


def path(name):
    return os.path.join(DIR, name)


def emit(**r):
    print(json.dumps(r), flush=True)


def run(name, *args, stdin=None, pes=0):
    cmd = [EXE[name]] + [str(a) for a in args]
    if pes:
        cmd = ["mpirun", "--oversubscribe", "--bind-to", "none", "--mca", "mpi_yield_when_idle", "1", "--mca",
               "btl_vader_single_copy_mechanism", "none", "--mca", "btl", "self,vader", "-n", str(pes)] + cmd
    tmp = tempfile.mkdtemp(prefix="m", dir=DIR)  # concurrent runs race for a common session directory
    try:
        for attempt in range(4):
            p = subprocess.run(cmd, capture_output=True, text=True, input=stdin, cwd=DIR, timeout=90, errors="replace",
                               env=dict(os.environ, TMPDIR=tmp))
            if not (p.returncode and "orte_init failed" in p.stderr):
                break
            time.sleep(1)
        if p.returncode and pes:
            sys.stderr.write(" ".join(cmd) + "\n" + p.stderr[-3000:])
        return p.returncode, re.sub(r"\x1b\[[0-9;]*m", "", p.stdout), p.stderr
    except subprocess.TimeoutExpired:
        return -99, "", "timeout"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---- graphs
class Graph:
    def __init__(self, n, edges, nw, ew, unique_nw=False):
        self.n = n
        adj = [[] for _ in range(n)]
        for u, v in edges:
            w = rng.randint(1, 9) if ew else 1
            adj[u].append((v, w))
            adj[v].append((u, w))
        for a in adj:
            rng.shuffle(a)
        self.adj = adj
        self.vw = []
        if unique_nw:
            self.vw = rng.sample(range(1, 3 * n + 2), n)
        elif nw:
            hi = rng.choice([2, 5, 20])
            self.vw = [rng.randint(1, hi) for _ in range(n)]
        self.ew = ew

    def m(self):
        return sum(map(len, self.adj))

    def record(self):
        s = [u for u in range(self.n) for _ in self.adj[u]]
        t = [v for a in self.adj for v, _ in a]
        return dict(n=self.n, s=s, t=t, vw=self.vw, ew=[w for a in self.adj for _, w in a] if self.ew else [])

    def total(self):
        return sum(self.vw) if self.vw else self.n

    def xadj(self):
        x = [0]
        for a in self.adj:
            x.append(x[-1] + len(a))
        return x

    def arrays(self):
        g = self.record()
        return "\n".join("%d %s" % (len(a), " ".join(map(str, a))) for a in (self.xadj(), g["t"], g["vw"], g["ew"]))

    def write(self, file, fmt):
        if fmt == "metis":
            f = 10 * bool(self.vw) + bool(self.ew)
            out = ["%d %d%s" % (self.n, self.m() // 2, " %d" % f if f else "")]
            for u in range(self.n):
                a = [str(self.vw[u])] if self.vw else []
                for v, w in self.adj[u]:
                    a += [str(v + 1)] + ([str(w)] if self.ew else [])
                out.append(" ".join(a))
            open(file, "w").write("\n".join(out) + "\n")
        else:
            g = self.record()
            version = (not self.ew) | (not self.vw) << 1 | 0b111100
            off = 24 + 4 * (self.n + 1)
            data = struct.pack("<QQQ", version, self.n, self.m())
            data += struct.pack("<%dI" % (self.n + 1), *[off + 4 * x for x in self.xadj()])
            for a in (g["t"], g["vw"], g["ew"]):
                data += struct.pack("<%dI" % len(a), *a)
            open(file, "wb").write(data)


def random_edges(n):
    kind = rng.randrange(8)
    E = set()

    def add(u, v):
        if u != v and 0 <= u < n and 0 <= v < n:
            E.add((min(u, v), max(u, v)))
    if kind == 0:                                   # no or few edges
        for _ in range(rng.randint(0, n // 3)):
            add(rng.randrange(n), rng.randrange(n))
    elif kind == 1:                                 # path or cycle
        for u in range(n):
            add(u, (u + 1) if coin(1, 2) else (u + 1) % n)
    elif kind == 2:                                 # grid
        w = max(1, int(n ** 0.5))
        for u in range(n):
            if (u + 1) % w:
                add(u, u + 1)
            add(u, u + w)
    elif kind == 3:                                 # star-like
        for u in range(1, n):
            add(u, rng.randrange(1 + u // 8))
    elif kind == 4:                                 # cliques
        c = rng.randint(2, 7)
        for u in range(n):
            for v in range(u + 1, min(n, u + c)):
                if u // c == v // c:
                    add(u, v)
            if coin(1, 4):
                add(u, rng.randrange(n))
    else:
        for _ in range(rng.randint(0, 4 * n)):
            add(rng.randrange(n), rng.randrange(n))
    if coin(1, 4):                                  # additional isolated vertices
        E = {(u, v) for u, v in E if u % 5 and v % 5}
    p = list(range(n))
    if coin(1, 2):
        rng.shuffle(p)
    return sorted((p[u], p[v]) for u, v in E)


def random_graph(lo, hi, unique_nw=False):
    n = rng.randint(lo, hi)
    return Graph(n, random_edges(n), coin(1, 3), coin(1, 3), unique_nw)


# ---- output
def text_lines(file):
    if not os.path.exists(file):
        return [[-7]]
    return [[-1] if line.lstrip().startswith("%") else [int(x) for x in line.split()] for line in open(file).read().splitlines()]


def column(file):
    if not os.path.exists(file):
        return [-7]
    return [int(x) for x in open(file).read().split()]


def file_words(file):
    data = open(file, "rb").read() if os.path.exists(file) else b"\0" * 24
    return list(struct.unpack("<%dI" % (len(data) // 4), data[:len(data) // 4 * 4])) + ([-1] if len(data) % 4 else [])


def graph_file(file, fmt):
    return dict(lines=text_lines(file), words=[]) if fmt == "metis" else dict(lines=[], words=file_words(file))


def number(text, key, default=-7):
    m = re.findall(re.escape(key) + r"\s*([-+.0-9einfa]+)", text)
    return m[-1] if m else str(default)


def scaled(s, by):
    try:
        return round(float(s) * by)
    except (ValueError, OverflowError):
        return -7


def clean():
    for f in os.listdir(DIR):
        os.unlink(path(f))


PRESETS = ["default", "fast", "strong", "largek", "terapart", "terapart-strong", "terapart-largek", "largek-fast", "largek-strong", "jet",
           "4xjet", "noref", "fm", "vcycle", "restricted-vcycle"]
TERA = ("terapart", "terapart-strong", "terapart-largek")


def bounds(g):
    """-> kind, k, epsilon in 1/1000, weights or factors, arguments"""
    k = rng.randint(2, max(2, min(9, g.n // 2)))
    kind = rng.choice(["eps", "eps", "eps", "abs", "fac"])
    if kind == "eps":
        eps = rng.choice([0, 10, 30, 50, 100, 300])
        return kind, k, eps, [], ["-k", k] + (["-e", eps / 1000] if eps != 30 or coin(1, 2) else [])
    if kind == "abs":
        top = max(g.vw) if g.vw else 1
        w = [max(top, g.total() // k + rng.randint(0, 1 + g.total() // k)) for _ in range(k)]
        if coin(1, 6):
            w = [max(1, g.total() // k - rng.randint(0, 2)) for _ in range(k)]  # not (much) more than the total weight
        return kind, k, 0, w, ["-B"] + w
    f = [1000 // k + rng.randint(10, 200) for _ in range(k)]
    if coin(1, 6):
        f = [max(1, 1000 // k - rng.randint(1, 40)) for _ in range(k)]
    return kind, k, 0, f, ["-b"] + [x / 1000 for x in f]


def summary(out):
    bw = re.findall(r"w\((\d+)\) += (\d+)", out)
    return dict(cut=scaled(number(out, "Edge cut:"), 1), imb=scaled(number(out, "Imbalance:"), 10000), pk=scaled(number(out, "Number of blocks:"), 1),
                feas=re.findall(r"Feasible:\s*(\w+)", out)[-1:], bw=[int(x) for _, x in bw])


def part():
    g = random_graph(2, 90)
    asym = coin(1, 12) and g.m()
    if asym:                                        # not an undirected graph
        u = rng.choice([u for u in range(g.n) if g.adj[u]])
        v, w = g.adj[u].pop()
        g.adj[u].append(((v + 1) % g.n if coin(1, 2) else v, w + 1)) if g.ew or coin(1, 2) else None
        if g.m() % 2:
            asym = False
            g = random_graph(2, 60)
    emit(ev="graph", g=g.record())
    if asym:
        fmt = rng.choice(["metis", "parhip"])
        g.write(path("g"), fmt)
        rc, out, err = run("kaminpar", "-G", path("g"), "-f", fmt, "-k", 2, "--validate", "-o", path("o"))
        emit(ev="validated", rc=rc, wrote=os.path.exists(path("o")))
        return
    for _ in range(rng.randint(1, 3)):
        clean()
        fmt = rng.choice(["metis", "parhip"])
        g.write(path("g"), fmt)
        preset, seed, threads = rng.choice(PRESETS), rng.randint(0, 99), 1 if coin(2, 3) else rng.randint(2, 4)
        order = rng.choice([[], [], ["--node-order", "natural"], ["--node-order", "deg-buckets"], ["--node-order", "external-deg-buckets"]])
        kind, k, eps, w, bargs = bounds(g)
        compress = coin(1, 5)
        noew = coin(1, 4)
        packed = coin(1, 6) and order != ["--node-order", "external-deg-buckets"]
        needs = compress or preset in TERA
        if packed:                                  # partition the compressed file
            rc, out, err = run("graph_compression", "-G", path("g"), "-f", fmt, "--out", path("c"), *(["-t", 2] if coin(1, 2) else []))
            emit(ev="ran", what="compress", rc=rc)
        args = ["-G", path("c" if packed else "g"), "-f", fmt, "-P", preset, "-s", seed, "-o", path("o"), "--output-block-sizes", path("z"), *bargs, *order]
        if threads > 1 or coin(1, 2):
            args += ["-t", threads]
        if compress:
            args.append("-c")
        if noew:
            args.append("--ignore-edge-weights")
        if coin(1, 3):
            args.append("--validate")
        if coin(1, 4):
            args += ["-v"] * rng.randint(1, 2)
        rearr = coin(1, 2) and not packed
        ofmt = rng.choice(["metis", "parhip"])
        if rearr:
            args += ["--output-rearranged-graph", path("r"), "--output-rearranged-graph-mapping", path("m"), "--output-graph-file-format", ofmt]
        rc, out, err = run("kaminpar", *args)
        if rc < 0:                                  # crashed: show how, keep the input for a debugging run
            sys.stderr.write("crash: " + " ".join(map(str, args)) + "\n")
            if os.environ.get("VP_KEEP"):
                shutil.copytree(DIR, os.path.join(os.environ["VP_KEEP"], "%d.%d" % (SEED, rng.randrange(10**6))))
        # the same through the library
        lib = []
        if threads == 1 and not order and rc == 0:
            ignore = noew and not needs
            save, g.ew = g.ew, g.ew and not ignore
            data = g.arrays()
            g.ew = save
            lrc, lout, _ = run("libpart", preset, seed, threads, int(needs), kind, *([k, eps] if kind == "eps" else w), stdin=data)
            lib = [int(x) for x in lout.split()] if lrc == 0 else [-7]
        emit(ev="part", rc=rc, cmd=" ".join(map(str, args)) if rc < 0 else "", wrote=os.path.exists(path("o")), k=k, kind=kind, eps=eps, bounds=w, noew=noew and not needs, unpacked=packed and not needs,
             p=column(path("o")), sizes=column(path("z")), lib=lib, quiet=False, **summary(out))
        if rc == 0 and rearr:
            emit(ev="rearranged", map=column(path("m")), p=column(path("o")), **graph_file(path("r"), ofmt))
        # what the tool for partitions says about it
        if rc == 0 and coin(1, 2):
            if coin(1, 2):
                rc, out, err = run("partition_properties", "-G", path("g"), "-f", fmt, "-P", path("o"), *(["-c"] if coin(1, 3) else []))
                emit(ev="pprops", rc=rc, p=column(path("o")), sizes=[], **summary(out))
            else:
                rc, out, err = run("partition_properties", "-G", path("g"), "-f", fmt, "--block-sizes", path("z"), *(["-c"] if coin(1, 3) else []))
                emit(ev="pprops", rc=rc, p=[], sizes=column(path("z")), **summary(out))


def tools():
    g = random_graph(1, 36, unique_nw=coin(1, 2))
    unique = len(set(g.vw)) == g.n
    emit(ev="graph", g=g.record())
    fmt, ofmt = rng.choice(["metis", "parhip"]), rng.choice(["metis", "parhip"])
    g.write(path("g"), fmt)
    base = ["-G", path("g"), "-f", fmt]
    outf = ["--out", path("o"), "--out-f", ofmt]
    t = ["-t", rng.randint(1, 4)] if coin(1, 2) else []
    c = ["-c"] if coin(1, 3) else []
    # properties
    rc, out, err = run("graph_properties", *base, *t, *c)
    tot = {k: re.findall(k + r":\s+\d+ \((total weight: (\d+)|unweighted)\)", out) for k in ("nodes", "edges")}
    tot = {k: (int(v[-1][1]) if v[-1][1] else -1) if v else -7 for k, v in tot.items()}
    emit(ev="props", rc=rc, n=scaled(number(out, "Number of nodes:"), 1), m=scaled(number(out, "Number of edges:"), 1), tvw=tot["nodes"], tew=tot["edges"],
         maxdeg=scaled(number(out, "Max degree:"), 1), avg=scaled(number(out, "Average degree:"), 1000), iso=scaled(number(out, "Isolated nodes:"), 1))
    # connected components
    rc, out, err = run("connected_components", *base, *t, *c, *outf)
    hist = [[int(x) for x in h] for h in re.findall(r"(\d+)-(\d+) nodes: (\d+)", out)]
    emit(ev="components", rc=rc, num=scaled(number(out, "Number of connected components:"), 1), largest=scaled(number(out, "Largest connected component:"), 1),
         single=scaled(number(out, "Isolated nodes:"), 1), hist=hist, **graph_file(path("o"), ofmt))
    # edge weights
    d = rng.choice(["uniform", "alternating", "exponential"])
    b = sorted(rng.randint(1, 50) for _ in range(4))
    args = {"uniform": ["--u-min", b[0], "--u-max", b[1]], "exponential": ["--e-lambda", rng.choice([0.01, 0.1, 2])],
            "alternating": ["--a-min-small", b[0], "--a-max-small", b[1], "--a-min-large", b[2], "--a-max-large", b[3]]}[d]
    args += ["-d", d, "-s", rng.randint(1, 50)]
    files = []
    for i in range(2):
        rc, out, err = run("graph_attach_weights", *base, *t, *args, "--out", path("w%d" % i), "--out-f", ofmt)
        files.append(graph_file(path("w%d" % i), ofmt))
        if rc:
            break
    emit(ev="weights", rc=rc, kind=d, b=b, again=files[-1]["lines"] + [files[-1]["words"]], **files[0])
    # rearrangement
    if unique:
        order = rng.choice([[], ["--node-order", "natural"], ["--node-order", "deg-buckets"]])
        order += rng.choice([[], ["--edge-order", "compression"], ["--edge-order", "natural"]])
        rc, out, err = run("graph_rearrangement", *base, *t, *order, "-O", path("r"), "--out-f", ofmt)
        emit(ev="rearrange", rc=rc, natural="natural" in order[:2] and order[0] == "--node-order", **graph_file(path("r"), ofmt))
    # the compressed file is the same graph
    rc, out, err = run("graph_compression", *base, *t, "--out", path("c"))
    emit(ev="ran", what="compress", rc=rc)
    rc, out, err = run("connected_components", "-G", path("c"), "-f", fmt, "-c", "--out", path("oc"), "--out-f", ofmt)
    emit(ev="components", rc=rc, num=scaled(number(out, "Number of connected components:"), 1), largest=scaled(number(out, "Largest connected component:"), 1),
         single=scaled(number(out, "Isolated nodes:"), 1), hist=[[int(x) for x in h] for h in re.findall(r"(\d+)-(\d+) nodes: (\d+)", out)],
         **graph_file(path("oc"), ofmt))
    rc, out, err = run("connected_components", "-G", path("c"), "-f", fmt)
    emit(ev="packed", rc=rc)


# ---- configurations
def options(text):
    return [[k, v.strip('"')] for k, v in re.findall(r"^([a-z0-9-]+)=(.*)$", text, re.M)]


def config():
    for exe, presets in (("kaminpar", PRESETS), ("dkaminpar", ["default", "strong", "europar23-fast", "europar23-strong"])):
        preset = rng.choice(presets)
        emit(ev="graph", g=dict(n=0, s=[], t=[], vw=[], ew=[]))
        rc, out, err = run(exe, "-P", preset, "--dump-config")
        base = options(out)
        given = []
        for name, v in rng.sample(base, rng.randint(0, min(12, len(base)))):
            if v in ("true", "false"):
                given.append([name, "false" if v == "true" else "true"])
            elif v in ("0", "1"):
                given.append([name, "10"[int(v)]])
            elif re.fullmatch(r"\d+", v) and int(v) < 10 ** 6 and not name.endswith(("relabel", "impl")):
                given.append([name, str(int(v) + rng.randint(1, 3))])
            elif re.fullmatch(r"0\.\d+", v):
                given.append([name, rng.choice(["0.125", "0.75"])])
        if exe == "kaminpar" and coin(1, 3):
            given.append(["p-vcycles", rng.choice(["[4]", "[4,8]"])])
        args = []
        for name, v in given:
            if name == "p-vcycles":
                for x in v.strip("[]").split(","):
                    args += ["--p-vcycles", x]
            else:
                args.append("--%s=%s" % (name, v))
        rc1, out1, _ = run(exe, "-P", preset, *args, "--dump-config")
        open(path("conf"), "w").write(out1)
        rc2, out2, _ = run(exe, "-C", path("conf"), "--dump-config")
        emit(ev="config", base=base, given=given, dump=options(out1), again=options(out2), msg=[])


def dist():
    g = random_graph(8, 70)
    emit(ev="graph", g=g.record())
    for _ in range(2):
        clean()
        fmt = rng.choice(["metis", "parhip"])
        g.write(path("g"), fmt)
        k, eps = rng.randint(2, max(2, min(6, g.n // 4))), rng.choice([30, 50, 100, 300])
        reps = rng.choice([0, 0, 3, 5])
        args = ["-G", path("g"), "--io-format", fmt, "--io-kind", "kaminpar", "-k", k, "-e", eps / 1000, "-s", rng.randint(0, 50), "-o", path("o"),
                "-P", rng.choice(["default", "strong", "europar23-fast"]), "--io-distribution",
                rng.choice(["balanced-nodes", "balanced-edges"])]
        if reps:
            args += ["--repetitions", reps]
        if coin(1, 4):
            args.append("-c")
        pes = rng.choice([1, 2, 3, 4])
        rc, out, err = run("dkaminpar", *args, pes=pes)   # (europar23-strong needs Mt-KaHyPar, which is not part of this build)
        found = re.findall(r"^ *Edge cut: +(\d+)\n *Imbalance: +([-+.0-9einfa]+)\n *Feasible: +(\w+)", out, re.M)
        cuts, imbs, feas = [int(x[0]) for x in found], [scaled(x[1], 10000) for x in found], [x[2] for x in found]
        best = scaled(number(out, "Best cut:"), 1) if reps else -1
        emit(ev="dpart", rc=rc, k=k, reps=max(1, reps), eps=eps, cuts=cuts, imbs=imbs, feas=feas, best=best, p=column(path("o")), pes=pes)


try:
    for _ in range(COUNT):
        {"part": part, "tools": tools, "config": config, "dist": dist}[MODE]()
        clean()
finally:
    shutil.rmtree(DIR, ignore_errors=True)
