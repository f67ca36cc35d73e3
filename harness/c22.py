"""C22: angle summaries. For every discretisation of MCSummary the real summaries of random, one-hot and structured matrices are
recorded and compared with the specification."""
import math, random
import numpy as np
import matlib
from vlib import fx, fxl

CFG = """CONSTANTS MaxN = %d
 Fineness <- %s
 EmitOn = %s
INIT Init
NEXT Next
INVARIANTS PowerKept Emit
"""


def task(t):
    import mat
    mat.quiet()
    from rayflare.angles import make_angle_vector, theta_summary, theta_summary_A
    d = t["d"]
    rng = np.random.RandomState(t["seed"])
    N = matlib.n_in(d)
    evs = []
    try:
        _, _, av = make_angle_vector(d["n"], 2 * math.pi / d["k"], d["cp"] / d["cq"], *(["linear"] if d["lin"] else []))
        av = np.asarray(av)
        edges = [i * math.pi / 2 / d["n"] if d["lin"] else math.asin(i / d["n"]) for i in range(d["n"] + 1)]
        mats = []
        M = rng.rand(2 * N, N) ** 4
        mats.append(M / M.sum(0))
        M = np.zeros((2 * N, N))
        M[rng.randint(2 * N, size=N), np.arange(N)] = 1
        mats.append(M)
        M = np.zeros((2 * N, N))
        M[rng.randint(2 * N), rng.randint(N)] = 0.84
        mats.append(M)
        for front in (True, False):
            for M in mats:
                M = np.round(M, 6)
                keep = M.copy()
                s = theta_summary(M, av, d["n"], "front" if front else "rear")
                dims = list(s.dims)
                evs.append(dict(kind="RT", error="", d=d, front=front, edges=fxl(edges), M=fxl(keep.T), sum=fxl(np.asarray(s.data)),
                                out=fxl(s.coords[dims[0]].data), **{"in": fxl(s.coords[dims[1]].data)}))
        for nl in (1, 3):
            A = np.round(rng.rand(nl, N), 6)
            s = theta_summary_A(A, av)
            evs.append(dict(kind="A", error="", d=d, front=True, nl=nl, M=fxl(A.T), sum=fxl(np.asarray(s))))
    except Exception as ex:
        import traceback
        evs.append(dict(kind="RT", d=d, error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-900:]))
    return evs


def run(ctx):
    rng = random.Random(ctx.seed * 19 + 22)
    ds = ctx.generate("MCSummary", CFG % (4 if not ctx.thorough else 5, "F4", "TRUE"), workers=ctx.ncpu)
    tasks = []
    for d in ds + [dict(n=9, cp=1, cq=4, k=4, lin=False)] + ([dict(n=20, cp=1, cq=4, k=4, lin=False)] if ctx.thorough else []):
        for k in (1, 4, 8):
            for lin in (False, True):
                for rep in range(3 if ctx.thorough else 1):
                    tasks.append(dict(d=dict(d, k=k, lin=lin), seed=rng.randrange(10**9)))
    res = ctx.pmap(task, tasks, timeout=100)
    events = [e for t, r in zip(tasks, res) for e in (r if isinstance(r, list) else [dict(kind="RT", d=t["d"], error=r["error"])])]
    ctx.notes["discretisations"] = len(tasks)
    ctx.validate("SummaryTrace", events)
