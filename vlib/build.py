"""Build driver: compiles /repo's *current working tree* (and the harnesses of /verif) with a
content-addressed object cache in /verif/build.

An object is reused only if the contents of the translation unit and of all its non-system
dependencies are unchanged up to comments/blank lines, i.e., the cache never hides a code change.
"""
import hashlib, json, os, subprocess, sys, fcntl, shlex, glob, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 8

BASE = ["-std=c++20", "-O1", "-g0", "-msse4.1", "-mcx16", "-w",
        "-I" + os.path.join(VERIF, "shim"), "-I" + REPO, "-I" + os.path.join(VERIF, "harness"),
        "-isystem", os.path.join(REPO, "external/growt"),
        "-DKAMINPAR_ENABLE_TIMERS", "-DKAMINPAR_ENABLE_THP",
        "-DKAMINPAR_COMPRESSION_HIGH_DEGREE_ENCODING", "-DKAMINPAR_COMPRESSION_INTERVAL_ENCODING",
        "-DKAMINPAR_SPARSEHASH_FOUND", "-DKAMINPAR_USES_GROWT", "-DKAMINPAR_VERIF"]
LIBS = ["-ltbb", "-ltbbmalloc", "-lnuma", "-lpthread"]


class BuildError(Exception):
    pass


_mpi = None


def mpi_flags():
    global _mpi
    if _mpi is None:
        c = subprocess.run(["mpicxx", "--showme:compile"], capture_output=True, text=True).stdout.split()
        l = subprocess.run(["mpicxx", "--showme:link"], capture_output=True, text=True).stdout.split()
        _mpi = (c, l)
    return _mpi


def flavor(name):
    """-> (compile flags, link flags)"""
    if name == "shm":
        return BASE, LIBS
    if name == "shm64":   # 64 bit ids and weights
        return BASE + ["-DKAMINPAR_64BIT_NODE_IDS", "-DKAMINPAR_64BIT_EDGE_IDS", "-DKAMINPAR_64BIT_WEIGHTS"], LIBS
    if name == "shmw":    # 32 bit ids, 64 bit weights
        return BASE + ["-DKAMINPAR_64BIT_WEIGHTS"], LIBS
    if name == "svb":     # StreamVByte instead of VarInt encoding
        return BASE + ["-DKAMINPAR_COMPRESSION_STREAMVBYTE_ENCODING"], LIBS
    if name == "asan":    # (exploration only)
        return [x for x in BASE if x != "-g0"] + ["-g", "-fsanitize=address,undefined", "-fno-omit-frame-pointer"], LIBS + ["-fsanitize=address,undefined"]
    if name == "dbg":     # (exploration only)
        return [x for x in BASE if x != "-g0"] + ["-g"], LIBS
    if name == "dist":
        c, l = mpi_flags()
        return BASE + ["-DKAMINPAR_64BIT_WEIGHTS"] + c, LIBS + l
    if name in ("distdbg", "distasan"):    # (exploration only)
        c, l = mpi_flags()
        san = ["-fsanitize=address", "-fno-omit-frame-pointer"] if name == "distasan" else []
        return [x for x in BASE if x != "-g0"] + ["-g", "-DKAMINPAR_64BIT_WEIGHTS"] + san + c, LIBS + l + san
    raise KeyError(name)


# ---------------------------------------------------------------- content hashes
_lock = threading.Lock()
_strip_path = os.path.join(BUILD, "strip.json")
_strip = None
_raw = {}


def _load_strip():
    global _strip
    if _strip is None:
        try:
            _strip = json.load(open(_strip_path))
        except Exception:
            _strip = {}


def file_hash(path):
    """hash of the file's contents without comments"""
    with _lock:
        _load_strip()
        if path in _raw:
            return _raw[path]
    try:
        data = open(path, "rb").read()
    except OSError:
        return None
    raw = hashlib.sha1(data).hexdigest()
    with _lock:
        s = _strip.get(raw)
    if s is None:
        p = subprocess.run(["g++", "-x", "c++", "-std=c++20", "-fpreprocessed", "-dD", "-E", "-P", path],
                           capture_output=True)
        s = hashlib.sha1(p.stdout).hexdigest() if p.returncode == 0 and not p.stderr else raw
        with _lock:
            _strip[raw] = s
    with _lock:
        _raw[path] = s
    return s


def _save_strip():
    with _lock:
        if _strip is not None:
            tmp = _strip_path + ".tmp%d" % os.getpid()
            json.dump(_strip, open(tmp, "w"))
            os.replace(tmp, _strip_path)


def _combined(base, deps):
    h = hashlib.sha1(base.encode())
    for d in deps:
        x = file_hash(d)
        if x is None:
            return None
        h.update((d + ":" + x + "\n").encode())
    return h.hexdigest()


def compile_tu(src, flags):
    """-> path of the object file"""
    base = hashlib.sha1(("\0".join(flags) + "\0" + src).encode()).hexdigest()
    meta_path = os.path.join(BUILD, "meta", base + ".json")
    os.makedirs(os.path.join(BUILD, "meta"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    try:
        dep_lists = json.load(open(meta_path))
    except Exception:
        dep_lists = []
    for deps in dep_lists:
        c = _combined(base, deps)
        if c:
            obj = os.path.join(BUILD, "obj", c + ".o")
            if os.path.exists(obj):
                return obj
    tmp = os.path.join(BUILD, "obj", base + ".%d.tmp" % os.getpid())
    cmd = ["g++"] + flags + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, p.stderr[-4000:]))
    text = open(tmp + ".d").read().replace("\\\n", " ")
    deps = text.split(":", 1)[1].split()
    deps = sorted({os.path.normpath(d) for d in deps if os.path.normpath(d).startswith((REPO + "/", VERIF + "/"))})
    c = _combined(base, deps)
    obj = os.path.join(BUILD, "obj", c + ".o")
    os.replace(tmp + ".o", obj)
    os.unlink(tmp + ".d")
    if deps not in dep_lists:
        dep_lists.insert(0, deps)
        t = meta_path + ".tmp%d" % os.getpid()
        json.dump(dep_lists[:6], open(t, "w"))
        os.replace(t, meta_path)
    return obj


# ---------------------------------------------------------------- source sets
def _glob(*pats, exclude=()):
    out = []
    for p in pats:
        out += glob.glob(os.path.join(REPO, p), recursive=True)
    return sorted(x for x in set(out) if not any(e in x for e in exclude))


def environment_cc():
    src = os.path.join(REPO, "kaminpar-common/environment.cc.in")
    text = open(src).read()
    import re
    text = re.sub(r"@[A-Za-z_0-9]+@", "unknown", text)
    path = os.path.join(BUILD, "gen_environment.cc")
    os.makedirs(BUILD, exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)
    return path


def sources(lib):
    if lib == "common":
        return _glob("kaminpar-common/**/*.cc") + [environment_cc()]
    if lib == "shm":
        return _glob("kaminpar-shm/**/*.cc")
    if lib == "shmdata":  # graphs and compression only
        return _glob("kaminpar-shm/datastructures/**/*.cc", "kaminpar-shm/graphutils/*compressed*.cc")
    if lib == "io":
        return _glob("apps/io/shm_*.cc")
    if lib == "cli":
        return _glob("kaminpar-cli/kaminpar_arguments.cc")
    if lib == "mpi":
        return _glob("kaminpar-mpi/**/*.cc")
    if lib == "dist":
        return _glob("kaminpar-dist/**/*.cc")
    if lib == "distio":
        return _glob("apps/io/dist_*.cc", exclude=("skagen",))
    if lib == "distcli":
        return _glob("kaminpar-cli/dkaminpar_arguments.cc")
    if lib == "app":
        return _glob("apps/KaMinPar.cc")
    if lib.startswith("file:"):
        return [os.path.join(REPO, lib[5:])]
    raise KeyError(lib)


def build(name, harness=None, libs=(), flav="shm", extra=(), extra_link=()):
    """Builds the program `name` from harness sources (relative to /verif/harness) and library source
    sets; returns the path of the executable."""
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cf, lf = flavor(flav)
        cf = cf + list(extra)
        mains = [os.path.join(VERIF, "harness", h) for h in ([harness] if isinstance(harness, str) else harness or [])]
        tus = [(s, cf) for s in mains]
        libcf, _ = flavor(flav)
        for l in libs:
            tus += [(s, libcf if not l.startswith("file!") else cf) for s in sources(l)]
        # slow translation units first
        slow = ("fm_refiner", "lp_refiner", "lp_clusterer", "contraction", "dist", "initial")
        order = sorted(range(len(tus)), key=lambda i: (0 if i < len(mains) else 1, 0 if any(w in tus[i][0] for w in slow) else 1))
        objs = [None] * len(tus)
        errs = []

        def work(i):
            try:
                objs[i] = compile_tu(*tus[i])
            except BuildError as e:
                errs.append(str(e))
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(work, order))
        _save_strip()
        if errs:
            raise BuildError("\n".join(errs))
        h = hashlib.sha1("\0".join(objs + lf + list(extra_link)).encode()).hexdigest()[:16]
        exe = os.path.join(BUILD, "bin", name + "-" + h)
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(BUILD, "bin", name + "-" + "?" * 16)):
            if time.time() - os.path.getmtime(old) > 3600:  # (a younger one may be in use)
                os.unlink(old)
        p = subprocess.run(["g++"] + objs + ["-o", exe + ".tmp"] + list(extra_link) + lf, capture_output=True, text=True)
        if p.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (name, p.stderr[-4000:]))
        os.replace(exe + ".tmp", exe)
        return exe
