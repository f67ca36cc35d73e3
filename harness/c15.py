"""C15: histories of shift / refresh / copy generated by MCSurface, replayed on real surfaces of many kinds."""
import random, copy
import numpy as np
from vlib import fx, fxl

CFG = """CONSTANTS MaxLen = %d
 MaxObj = %d
 Amounts <- A2
 EmitOn = %s
INIT Init
NEXT Next
INVARIANTS BaseFollowsShifts HeightsInDistribution Emit
PROPERTY Independent
VIEW View
"""
HD = {"h": [0.5, 1.25, 3.0], "p": [0.2, 0.5, 0.3]}


def make(name, rs):
    """(surface, height of its base)"""
    import rayflare.textures as tx
    hd = {"height_distribution": {"h": list(HD["h"]), "p": list(HD["p"])}}
    px, py = np.array([0, .5, 1, 0, 1]), np.array([0, .5, 0, 1, 1])
    if name == "pyr": return tx.regular_pyramids(55, True, 1, **hd)[0], 0
    if name == "pyr_inv": return tx.regular_pyramids(52, False, 2.5, **hd)[0], 0
    if name == "pyr_nodist": return tx.regular_pyramids(40, False, 3)[rs.randint(2)], 0
    if name == "planar": return tx.planar_surface(1.5)[rs.randint(2)], 0
    if name == "vx": return tx.V_grooves(35, 1, "x", **hd)[0], 0
    if name == "vy": return tx.V_grooves(60, 1, "y")[rs.randint(2)], 0
    if name == "base_pos": return tx.xyz_texture(px, py, np.array([2, 2.75, 2, 2, 2]), **hd)[0], 2
    if name == "base_pos_b": return tx.xyz_texture(px, py, np.array([2, 2.75, 2, 2, 2]), **hd)[1], -2
    if name == "base_neg": return tx.xyz_texture(px, py, np.array([-3, -2.25, -3, -3, -3]), **hd)[0], -3
    if name == "base_pit": return tx.xyz_texture(px, py, np.array([3, 1.5, 3, 3, 3]), **hd)[0], 3
    if name == "int": return tx.xyz_texture(np.array([0, 2, 4, 0, 4]), np.array([0, 2, 0, 4, 4]), np.array([0, 3, 0, 0, 0]))[0], 0
    if name == "twopeak":
        x = np.array([0, 0, 2, 2, 0.5, 1.5]); y = np.array([0, 1, 0, 1, 0.5, 0.4])
        return tx.xyz_texture(x, y, np.array([0, 0, 0, 0, 0.7, -1.1]), **hd)[0], 0
    if name == "heights":
        z = np.round(rs.rand(3, 4), 3); z[0, :] = z[-1, :] = z[:, 0] = z[:, -1] = 0.25
        return tx.heights_texture(z, 2.0, 1.0, **hd)[0], 0.25
    if name == "cov":
        z = np.round(rs.rand(3, 3), 3)
        return tx.heights_texture(z, 1.0, 1.0, coverage_height=0.1)[0], 0.1
    if name == "hyper": return tx.hyperhemisphere(N_points=2**7, radius=1.5, h=0.3)[rs.randint(2)], 0
    if name == "offcentre":
        return tx.xyz_texture(px - 4, py + 2, np.array([0, 1.5, 0, 0, 0]), **hd)[0], 0
    raise KeyError(name)


KINDS = ["pyr", "pyr_inv", "pyr_nodist", "planar", "vx", "vy", "base_pos", "base_pos_b", "base_neg", "base_pit", "int", "twopeak", "heights", "cov",
         "offcentre"]
BIG = ["hyper"]


def record(s):
    pts, tri = np.asarray(s.Points), np.asarray(s.simplices)
    nt = len(tri)
    arrs = [np.asarray(a) for a in (s.P_0s, s.P_1s, s.P_2s, s.crossP, s.N)]
    d = dict(shape=all(a.shape == (nt, 3) for a in arrs), pts=fxl(pts), tri=tri.tolist(), p0=fxl(arrs[0]), p1=fxl(arrs[1]),
             p2=fxl(arrs[2]), cross=fxl(arrs[3]), n=fxl(arrs[4]), zcov=fx(s.zcov), size=int(s.size),
             box=[fx(v) for v in (s.x_min, s.x_max, s.y_min, s.y_max, s.z_min, s.z_max)], L=[fx(s.Lx), fx(s.Ly)],
             H=fxl(s.distribution["h"]) if s.distribution is not None else [])
    d["span"] = int(np.ptp(pts, axis=0).max()) + 1
    return d


def task(t):
    rs = np.random.RandomState(t["seed"])
    np.random.seed(t["seed"] % 2**31)
    out = []
    what = dict(tex=t["kind"], hist=t["hist"])
    try:
        s, base = make(t["kind"], rs)
        top = 1 + int(np.argmax(np.abs(np.asarray(s.Points)[:, 2] - base)))

        def rec(objs):
            return [dict(record(o), top=top) for o in objs]
        objs = [s]
        out.append(dict(what, op="new", error="", i=1, dz=0, base=fx(base), s=rec(objs)))
        scale = t["scale"]
        for h in t["hist"]:
            o = objs[h["i"] - 1]
            dz = h["dz"] * scale
            if h["op"] == "shift":
                o.shift(dz)
            elif h["op"] == "refresh":
                o.refresh()
            else:
                objs.append(copy.deepcopy(o))
            out.append(dict(what, op=h["op"], error="", i=h["i"], dz=fx(dz), base=0, s=rec(objs)))
    except Exception as ex:
        import traceback
        out.append(dict(what, op="new", error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-800:]))
    return out


def freq(t):
    from rayflare.textures import regular_pyramids, xyz_texture
    np.random.seed(t["seed"] % 2**31)
    try:
        s = regular_pyramids(50, True, 1, height_distribution={"h": t["h"], "p": [x / 1000 for x in t["p"]]})[0]
        n, cnt = t["n"], [0] * len(t["h"])
        for _ in range(n):
            s.refresh()
            h = abs(s.Points[1, 2] - s.zcov)
            for k, v in enumerate(t["h"]):
                if abs(h - v) < 1e-9:
                    cnt[k] += 1
        return [dict(op="freq", error="", n=n, count=cnt, p=t["p"])]
    except Exception as ex:
        return [dict(op="freq", error="%s: %s" % (type(ex).__name__, str(ex)[:200]))]


def run(ctx):
    rng = random.Random(ctx.seed * 31 + 15)
    n = 5 if ctx.thorough else 4
    hists = ctx.generate("MCSurface", CFG % (n, 3, "TRUE"), workers=ctx.ncpu)
    tasks = []
    for i, h in enumerate(hists):
        kinds = [KINDS[(i + j * 5) % len(KINDS)] for j in range(2)]
        for k in kinds:
            tasks.append(dict(kind=k, hist=h, seed=rng.randrange(10**9), scale=rng.choice([0.1, 1, 3.37, 25.0])))
    for h in rng.sample(hists, 12 if not ctx.thorough else 60):
        tasks.append(dict(kind="hyper", hist=h, seed=rng.randrange(10**9), scale=1.0))
    # long random walks
    for j in range(len(KINDS) * (6 if ctx.thorough else 1)):
        h, nobj = [], 1
        for _ in range(25):
            op = rng.choice(["shift", "shift", "refresh", "refresh", "copy"] if nobj < 4 else ["shift", "refresh"])
            h.append(dict(op=op, i=rng.randint(1, nobj), dz=rng.choice([7, -3, 1, -6]) if op == "shift" else 0))
            nobj += op == "copy"
        tasks.append(dict(kind=KINDS[j % len(KINDS)], hist=h, seed=rng.randrange(10**9), scale=rng.choice([0.1, 1, 3.37])))
    res = ctx.pmap(task, tasks, timeout=100)
    groups = [r if isinstance(r, list) else [dict(op="new", error=r["error"])] for r in res]
    fq = [dict(h=[0.5, 1.0, 2.0], p=[200, 500, 300]), dict(h=[1.0, 4.0], p=[0, 1000]), dict(h=[3.0, 0.25, 1.5, 2.5], p=[700, 100, 0, 200])]
    res = ctx.pmap(freq, [dict(f, n=4000, seed=rng.randrange(10**9)) for f in fq])
    groups += [r if isinstance(r, list) else [dict(op="freq", error=r["error"])] for r in res]
    ctx.notes["histories"] = len(groups)
    rng.shuffle(groups)
    ctx.validate("SurfaceTrace", [e for g in groups for e in g], groups=groups)
