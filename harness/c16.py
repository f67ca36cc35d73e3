"""C16: standard textures, recorded for many parameters and checked by TextureTrace."""
import random, math
import numpy as np
from vlib import fx, fxl

CFG = "CONSTANTS MaxT = %d\n Full = TRUE\nINIT Init\nNEXT Next\nINVARIANT CriterionRight\n"


def rec(s, size):
    return dict(pts=fxl(np.asarray(s.Points) / size), tri=np.asarray(s.simplices).tolist(), n=fxl(np.asarray(s.N)),
                p0=fxl(np.asarray(s.P_0s) / size), p1=fxl(np.asarray(s.P_1s) / size), p2=fxl(np.asarray(s.P_2s) / size))


def task(t):
    import rayflare.textures as tx
    np.random.seed(t["seed"] % 2**31)
    k = t["kind"]
    e = dict(kind=k, error="", box=[0, 1000000, 0, 1000000], prm={a: b for a, b in t.items() if a not in ("seed", "kind", "z")})
    try:
        size = t.get("size", 1)
        if k == "pyramids":
            f, b = tx.regular_pyramids(t["deg"], t["upright"], size)
            e.update(angle=fx(math.radians(t["deg"])), upright=t["upright"])
        elif k == "planar":
            f, b = tx.planar_surface(size)
        elif k == "vgroove":
            f, b = tx.V_grooves(t["deg"], size, t["dir"])
            e.update(angle=fx(math.radians(t["deg"])), dir=t["dir"], one=fx(1 / size))
        elif k == "rough_pyramids":
            f, b = tx.rough_pyramids(t["deg"], t["upright"], size, t["noise"], t["npts"], t["grid"])
            e.update(angle=fx(math.radians(t["deg"])), upright=t["upright"], noise=fx(t["noise"]), npts=t["npts"], grid=t["grid"])
        elif k == "rough_planar":
            f, b = tx.rough_planar_surface(size, t["noise"], t["npts"], t["grid"])
            e.update(angle=0, upright=True, noise=fx(t["noise"]), npts=t["npts"], grid=t["grid"])
        elif k == "cap":
            f, b = tx.hemisphere_surface(size, t["npts"], t["radius"] * size, t["offset"] * size, t["noise"], t["stretch"], t["upright"])
            e.update(npts=t["npts"], radius=fx(t["radius"]), offset=fx(t["offset"]), noise=fx(t["noise"]), stretch=fx(t["stretch"]), upright=t["upright"])
        elif k == "xyz":
            p = np.array(t["pts"])
            f, b = tx.xyz_texture(p[:, 0] * size, p[:, 1] * size, p[:, 2] * size)
            e.update(given=fxl(p), box=[fx(v) for v in (p[:, 0].min(), p[:, 0].max(), p[:, 1].min(), p[:, 1].max())])
        elif k == "heights":
            z = np.array(t["z"])
            f, b = tx.heights_texture(z * size, t["xw"] * size, t["yw"] * size)
            e.update(z=fxl(z), box=[0, fx(t["xw"]), 0, fx(t["yw"])])
        elif k == "hyper":
            f, b = tx.hyperhemisphere(t["npts"], size, t["h"] * size)
            e.update(h=fx(t["h"]))
        e.update(front=rec(f, size), back=rec(b, size))
        f.find_area()
        e["area"] = fx(f.area)
    except Exception as ex:
        import traceback
        e.update(error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-800:])
    return e


def run(ctx):
    rng = random.Random(ctx.seed * 37 + 16)
    ctx.model("MCTexture", CFG % (5 if ctx.thorough else 4))
    th = ctx.thorough
    sizes = [1, 2, 0.5, 5, 0.02, 37.5] + ([0.3, 123.0, 3, 7.7, 1e-3] if th else [])
    degs = [1, 20, 35.3, 45, 52, 54.74, 55, 65, 80] + ([5, 10, 30, 50, 60, 70, 75, 85] if th else [])
    T = []
    for s in sizes:
        T.append(dict(kind="planar", size=s))
        for d in degs:
            for u in (True, False):
                T.append(dict(kind="pyramids", size=s, deg=d, upright=u))
            for dr in "xy":
                T.append(dict(kind="vgroove", size=s, deg=d, dir=dr))
    for i in range(8 * (4 if th else 1)):
        for grid in (True, False):
            for u in (True, False):
                T.append(dict(kind="rough_pyramids", size=rng.choice(sizes), deg=rng.choice(degs[1:-1]), upright=u, noise=rng.choice([0.0, 0.05, 0.1, 0.3, 0.7]),
                              npts=rng.choice([16, 36, 50, 100]), grid=grid))
            T.append(dict(kind="rough_planar", size=rng.choice(sizes), noise=rng.choice([0.0, 0.05, 0.1, 0.3]), npts=rng.choice([16, 36, 50, 100]), grid=grid))
    for i in range(16 * (4 if th else 1)):
        r = rng.choice([0.2, 0.3, 0.4, 0.45])
        T.append(dict(kind="cap", size=rng.choice(sizes), npts=rng.choice([8, 11, 14]), radius=r, offset=rng.choice([0, 0, 0.3, 0.6]) * r,
                      noise=rng.choice([0, 0, 0.05, 0.2]), stretch=rng.choice([1, 1, 0.5, 2]), upright=rng.random() < 0.5))
    for i in range(20 * (4 if th else 1)):
        w, hgt = rng.choice([(1, 1), (2, 1), (0.7, 1.9)])
        x0, y0 = rng.choice([(0, 0), (-0.5, 0.25)])
        pts = [[x0, y0, 0], [x0 + w, y0, 0], [x0, y0 + hgt, 0], [x0 + w, y0 + hgt, 0]] + [
            [x0 + w * round(rng.uniform(0.03, 0.97), 4), y0 + hgt * round(rng.uniform(0.03, 0.97), 4), round(rng.uniform(-1, 1), 4)] for _ in range(rng.choice([1, 3, 10]))]
        T.append(dict(kind="xyz", size=rng.choice(sizes), pts=pts))
        ny, nx = rng.choice([(2, 3), (3, 2), (4, 4), (3, 5), (6, 2)])
        T.append(dict(kind="heights", size=rng.choice(sizes), z=[[round(rng.uniform(-1, 1), 4) for _ in range(nx)] for _ in range(ny)],
                      xw=rng.choice([1, 2.5]), yw=rng.choice([1, 0.75])))
    for npts in (512,) + ((1024, 2048) if th else ()):
        for s in (1, 3, 0.01):
            for h in (0, 0.25, -0.25, 0.6, 0.85, -0.5):
                T.append(dict(kind="hyper", size=s, npts=npts, h=h))
    for t in T:
        t["seed"] = rng.randrange(10**9)
    res = ctx.pmap(task, T, timeout=100)
    events = [r if "kind" in r else dict(kind=t["kind"], error=r["error"], prm=str(t)[:300]) for t, r in zip(T, res)]
    kinds = {}
    for t in T:
        kinds[t["kind"]] = kinds.get(t["kind"], 0) + 1
    ctx.notes["textures"] = kinds
    rng.shuffle(events)
    ctx.validate("TextureTrace", events)
