"""Helpers shared by checks."""


def split(recs, starts=("graph",)):
    out = []
    for r in recs:
        if r["ev"] in starts or not out:
            out.append([])
        out[-1].append(r)
    return out


def seeds(c, exe, rows, par=6, timeout=None, what="", **kw):
    """rows: (args after the count, quick count, thorough count, quick seeds, thorough seeds)"""
    timeout = timeout or c.pick(100, 900)
    kw.setdefault("env", {})["VP_WALL"] = str(2 * timeout)
    plan = []
    for args, q, t, qs, ts in rows:
        for j in range(c.pick(qs, ts)):
            plan.append([exe, str(c.seed * 1000 + 17 * len(plan) + j), str(c.pick(q, t))] + list(args))
    return c.run_harness_many(plan, par=par, timeout=timeout, what=what, **kw)


MPI_ENV = {"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1"}


def mpi(n):
    return ["mpirun", "--oversubscribe", "--bind-to", "none", "--mca", "mpi_yield_when_idle", "1", "--mca",
            "btl_vader_single_copy_mechanism", "none", "--mca", "btl", "self,vader", "-n", str(n)]


def mpi_seeds(c, exe, rows, par=3, timeout=None, what="", **kw):
    """rows: (numbers of PEs, args after the count, quick count, thorough count, quick seeds, thorough seeds)"""
    timeout = timeout or c.pick(100, 900)
    kw["env"] = dict(kw.get("env", {}), VP_WALL=str(2 * timeout), **MPI_ENV)
    plan = []
    for pes, args, q, t, qs, ts in rows:
        for n in pes:
            for j in range(c.pick(qs, ts)):
                plan.append(mpi(n) + [exe, str(c.seed * 1000 + 17 * len(plan) + j), str(c.pick(q, t))] + list(args))
    plan.sort(key=lambda a: -int(a[a.index("-n") + 1]))
    return c.run_harness_many(plan, par=par, timeout=timeout, what=what, **kw)
