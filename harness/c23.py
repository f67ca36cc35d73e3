"""C23: planar and textured surfaces against the Fresnel specification. The random numbers deciding between reflection and
transmission are scripted (evenly spread, always reflect, always transmit), so that the reflectance is exact to 1 / rays."""
import math, os, random, sys
import numpy as np
from vlib import fx, fxl

CFG = """CONSTANTS Thetas <- TA
 Phis <- PA
 Alphas <- AA
 Ns <- NA
 MaxHits = %d
INIT Init
NEXT Next
INVARIANTS UnitLength Tangential Sides Reversible Reflects
"""


class Script:
    """stands in for random.random: evenly spread numbers in a scrambled order, or a constant"""

    def __init__(self):
        self.seq, self.i, self.calls = None, 0, 0
        self.real = random.random

    def even(self, n, rng):
        s = [(i + .5) / n for i in range(n)]
        rng.shuffle(s)
        self.seq, self.i, self.calls = s, 0, 0

    def const(self, x):
        self.seq, self.i, self.calls = [x], 0, 0

    def __call__(self):
        self.calls += 1
        if self.seq is None:
            return self.real()
        x = self.seq[self.i % len(self.seq)]
        self.i += 1
        return x


def install():
    s = Script()
    random.random = s
    m = sys.modules.get("rayflare.ray_tracing.rt")
    if m is not None and hasattr(m, "random"):
        m.random = s
    return s


def mats(nk):
    from mat import Mat
    return Mat(lambda wl: np.interp(wl, [a for a, _ in nk], [b.real for _, b in nk]), lambda wl: np.interp(wl, [a for a, _ in nk], [b.imag for _, b in nk]), "m")


def rays_of(r, w):
    th, ph = np.real(r["thetas"][w]), np.real(r["phis"][w])
    return [[fx(th[i]), fx(ph[i]), "gone" if np.isnan(th[i]) else "R" if th[i] <= math.pi / 2 else "T", int(r["n_interactions"][w][i])] for i in range(len(th))]


def run_rt(tex, na, nb, o):
    import rtlib
    from rayflare.ray_tracing import rt_structure
    op = rtlib.options(o.pop("wls"), **o)
    return rt_structure([tex], [], [], na, nb, op).calculate(op)


def planar(t, sc):
    from rayflare.textures import planar_surface
    rng = random.Random(t["seed"])
    n = t["rays"]
    nx = 10
    wls = [(500 + 10 * i) * 1e-9 for i in range(len(t["cases"]))]
    A = mats([(w, complex(*c["na"])) for w, c in zip(wls, t["cases"])])
    B = mats([(w, complex(*c["nb"])) for w, c in zip(wls, t["cases"])])
    side, th, ph, pol = t["side"], t["theta"], t["phi"], t["pol"]
    o = dict(wls=wls, theta_in=th, phi_in=ph, pol=pol, nx=nx, ny=nx, n_rays=n, I_thresh=1e-3, random_ray_position=False, randomize_surface=False)
    if side == 2:
        o.update(initial_material=1, initial_direction=-1)
    sc.even(n, rng)
    sc.calls = 0
    r = run_rt(planar_surface(), A, B, o)
    scripted = sc.calls == n * len(wls)
    out = []
    for w, c in enumerate(t["cases"]):
        rays = rays_of(r, w)
        uniq = [list(x) for x in sorted(set(map(tuple, rays)))]
        out.append(dict(kind="recorded" if t.get("recorded") else "planar", error="", na=fxl(c["na"]), nb=fxl(c["nb"]), pol=pol, theta=fx(th), phi=fx(ph), side=side, R=fx(r["R"][w]), T=fx(r["T"][w]), rays=uniq,
                        tol=int(1e6 / n) + 60 if scripted else int(6e6 * math.sqrt(.25 / n)), scripted=scripted, seed=t["seed"]))
    return out


def facet(t, sc):
    from rayflare import textures as tx
    rng = random.Random(t["seed"])
    a = t["a"]
    deg = math.degrees(a)
    k = t["facets"]
    tex = tx.planar_surface() if k == "planar" else tx.regular_pyramids(deg, t["up"], 1) if k == "pyramid" else tx.V_grooves(deg, 1, "x" if k == "groovex" else "y")
    wls = [600e-9]
    A, B = mats([(600e-9, complex(*t["na"]))]), mats([(600e-9, complex(*t["nb"]))])
    nx = t["nx"]
    o = dict(wls=wls, theta_in=t["theta"], phi_in=t["phi"], pol=t["pol"], nx=nx, ny=nx, n_rays=nx * nx, I_thresh=1e-3, random_ray_position=False, randomize_surface=False)
    if t["side"] == 2:
        o.update(initial_material=1, initial_direction=-1)
    mode = t["mode"]
    if mode == "both":
        sc.even(nx * nx, rng)
    else:
        sc.const(0.0 if mode == "R" else 0.9999999)
    sc.calls = 0
    r = run_rt(tex, A, B, o)
    rays = rays_of(r, 0)
    if sc.calls < len(rays):
        mode = "both"
    g = np.linspace(.01, .99, nx)
    pos = [[fx(x), fx(y)] for x in g for y in g] if t["theta"] == 0 else []
    if pos:
        both = sorted(set((tuple(q), tuple(p)) for q, p in zip(rays, pos)))
        rays, pos = [list(q) for q, _ in both], [list(p) for _, p in both]
    else:
        rays = [list(x) for x in sorted(set(map(tuple, rays)))]
    return [dict(kind="facet", error="", na=fxl(t["na"]), nb=fxl(t["nb"]), pol=t["pol"], theta=fx(t["theta"]), phi=fx(t["phi"]), side=t["side"], R=fx(r["R"][0]), T=fx(r["T"][0]), rays=rays, pos=pos,
                 facets=k, a=fx(a), up=t["up"], mode=mode, seed=t["seed"])]


def task(ts):
    sc = install()
    import mat
    mat.quiet()
    out = []
    for t in ts["items"]:
        np.random.seed(t["seed"] % 2**32)
        try:
            out += (planar if t["what"] == "planar" else facet)(t, sc)
        except Exception as ex:
            import traceback
            out.append(dict(kind=t["what"], error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-800:], task=t))
    return out


def run(ctx):
    rng = random.Random(ctx.seed * 1000 + 23)
    ctx.model("MCFresnel", CFG % (2 if ctx.thorough else 1), timeout=800)
    k = 4 if ctx.thorough else 1
    items = []
    u = rng.uniform
    for i in range(110 * k):
        side = rng.choice([1, 1, 2])
        th = rng.choice([0.0, u(0, 1.5), u(0, 1.5), u(0, .7)])
        cases = []
        while len(cases) < 4:
            na, nb = [round(u(1, 4), 4), 0.0], [round(u(1, 4), 4), 0.0]
            if rng.random() < .2:
                nb = [na[0], 0.0]
            if rng.random() < .25:      # Brewster or critical angle nearby
                x = round(na[0] * (math.tan(th) if rng.random() < .5 else math.sin(th) * u(.9, 1.1)), 4)
                if 1 <= x <= 4:
                    (nb if side == 1 else na)[0] = x
            if rng.random() < .3:       # absorbing medium on the far side
                f, to = (na, nb) if side == 1 else (nb, na)
                to[1] = round(u(.01, 4), 4)
            f, to = (na, nb) if side == 1 else (nb, na)
            s = f[0] * math.sin(th) / to[0]
            if to[1] > 0 and s > .999 or abs(s - 1) < .002:
                continue
            cases.append(dict(na=na, nb=nb))
        items.append(dict(what="planar", seed=rng.randrange(10**9), rays=400, cases=cases, side=side, theta=th, phi=u(0, 6.28), pol=rng.choice("spu")))
    for i in range(130 * k):
        f = rng.choice(["pyramid", "pyramid", "groovex", "groovey", "planar"])
        na, nb = [round(u(1, 1.8), 4), 0.0], [round(u(1, 3.6), 4), 0.0]
        if abs(na[0] - nb[0]) < .05:
            nb[0] += .3
        side = rng.choice([1, 1, 2])
        th = rng.choice([0.0, u(.02, 1.2), u(.02, .8)])
        if side == 2:
            th = min(th, .9)
        mode = rng.choice(["both", "R", "T"])
        items.append(dict(what="facet", seed=rng.randrange(10**9), facets=f, a=u(.3, 1.0), up=f != "pyramid" or rng.random() < .6, na=na, nb=nb, side=side, theta=th, phi=u(0, 6.28),
                          nx=rng.choice([4, 5, 6]), pol=rng.choice("spu"), mode=mode))
    items.append(dict(what="planar", recorded=True, seed=1, rays=400, cases=[dict(na=[1.5, 0.0], nb=[0.13, 3.6])], side=1, theta=.7, phi=.4, pol="u"))
    rng.shuffle(items)
    tasks = [dict(items=items[i:i + 8]) for i in range(0, len(items), 8)]
    events = []
    for t, r in zip(tasks, ctx.pmap(task, tasks, timeout=300)):
        if isinstance(r, dict):
            r = [dict(kind="planar", error=r["error"], where=r.get("where", ""))]
        events += r
    ctx.notes["scripted"] = sum(1 for e in events if e.get("scripted"))
    ctx.validate("FresnelTrace", events)
