"""C21: grouping of diffraction orders. Every order set of MCDiff (all subsets of the first 3 x 3 orders, in several sequences, for
several lattices) and larger sets are grouped by the real code and compared with the exact integer grouping."""
import math, random
import numpy as np
from vlib import fx, fxl

CFG = """CONSTANTS Grams <- %s
 EmitOn = TRUE
INIT Init
NEXT Next
INVARIANTS Partition Inversion Emit
"""


def vectors(g, unit, rot):
    """lattice vectors with that Gram matrix (times unit^2), rotated"""
    a = math.sqrt(g[0]) * unit
    bx = g[1] / math.sqrt(g[0]) * unit
    by = math.sqrt(g[2] * unit ** 2 - bx ** 2)
    v = [(a, 0.0), (bx, by)]
    c, s = math.cos(rot), math.sin(rot)
    return tuple((x * c - y * s, x * s + y * c) for x, y in v)


def task(t):
    import mat
    mat.quiet()
    from rayflare.analytic.diffraction import group_diffraction_orders
    out = []
    for c in t["cases"]:
        rng = random.Random(c["seed"])
        g, os = c["g"], c["os"]
        ev = dict(error="", g=g, os=os, has=c["has"])
        try:
            size = vectors(g, c["unit"], c["rot"])
            per = None
            if c["has"]:
                vals = [0.0, 0.01, 0.02, 0.03, 0.4]
                per = np.array([[rng.choice(vals) for _ in os] for _ in range(c["nw"])])
                if rng.random() < .5:
                    per = np.round(np.random.RandomState(c["seed"] % 2**31).rand(c["nw"], len(os)) * 0.05, 6)
                ev["per"] = fxl(per)
            keep = [list(o) for o in os]
            arg = [list(o) for o in os] if c["form"] == 0 else (np.array(os) if c["form"] == 1 else [tuple(o) for o in os])
            r = group_diffraction_orders(size, arg, per) if per is not None else group_diffraction_orders(size, arg)
            ev["k"] = fxl(np.asarray(r["k_xy"]) * c["unit"])
            ev["reps"] = [int(x) for x in r["reps"]]
            if c["has"]:
                ev["sum"] = fxl(np.asarray(r["per_order"]))
                ev["deg"] = [int(x) for x in r["degeneracy"]]
        except Exception as ex:
            import traceback
            ev["error"] = "%s: %s" % (type(ex).__name__, str(ex)[:200])
            ev["where"] = traceback.format_exc()[-700:]
        out.append(ev)
    return out


def run(ctx):
    rng = random.Random(ctx.seed * 7 + 21)
    beh = ctx.generate("MCDiff", CFG % ("G6" if ctx.thorough else "G2"), workers=ctx.ncpu)
    if not ctx.thorough:
        rng.shuffle(beh)
        beh = beh[:6000]
    elif len(beh) > 40000:
        rng.shuffle(beh)
        beh = beh[:40000]
    cases = list(beh)
    for i in range(150 if not ctx.thorough else 600):
        m = rng.choice([2, 3, 4])
        g = rng.choice([[4, 0, 4], [4, 0, 9], [2, 1, 2], [4, 1, 9], [1, 0, 4], [25, 0, 16], [9, 3, 5]])
        os = [[a, b] for a in range(-m, m + 1) for b in range(-m, m + 1)]
        rng.shuffle(os)
        if rng.random() < .5:
            os = os[:rng.randrange(1, len(os))]
        cases.append(dict(g=g, os=os))
    for c in cases:
        c.update(seed=rng.randrange(10**9), unit=rng.choice([1.0, 100.0, 333.0]), rot=rng.choice([0.0, 0.5]), has=rng.random() < .8, nw=rng.choice([1, 3]), form=rng.randrange(3))
    chunks = [cases[i::64] for i in range(64)]
    res = ctx.pmap(task, [dict(cases=c) for c in chunks], timeout=200)
    events = [e for c, r in zip(chunks, res) for e in (r if isinstance(r, list) else [dict(error=r["error"], g=[], os=[])])]
    ctx.notes["behaviours"] = len(cases)
    ctx.validate("DiffTrace", events)
