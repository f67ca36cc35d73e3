"""C11: energy conservation and polarisation averaging of the multilayer calculation, for every stack shape of MCShapes."""
import random
import numpy as np
from vlib import fx, fxl
import tmmlib as tl


def task(t):
    import mat
    mat.quiet()
    from rayflare.transfer_matrix_method import tmm_structure
    out = []
    for shape, seed in t["items"]:
        rng = random.Random(seed)
        ev = dict(kind="calc", shape=shape, seed=seed, error="")
        try:
            st = tl.Stack(shape, rng)
            wls = [rng.uniform(350e-9, 1100e-9) for _ in range(rng.choice([1, 2, 2, 3]))]
            th = tl.choose_angle(st, wls, rng)
            if th is None:
                continue
            force = rng.random() < 0.3 and bool(shape["ls"])
            if shape["ls"] and rng.random() < .15:
                # suppressed back reflection
                nb = dict(kind="noback", shape=shape, seed=seed, error="")
                pol = rng.choice("spu")
                o = tl.opts(wls, th, pol, st, False)
                if st.coherent and st.par[-2][2] < 0.2:
                    s = tmm_structure(st.layers(), st.mat(0), st.mat(len(st.cls) - 1), no_back_reflection=True)
                    r = s.calculate(o)
                    med = [st.med(w) for w in wls]
                    for m in med:
                        m[-1] = dict(m[-2])
                        m.pop(-2)
                    if st.usable(wls, th):
                        nb.update(med=med, kx=[st.kx(w, th) for w in wls], pol=pol, tol=1500, R=fxl(r["R"]), T=fxl(r["T"]), L=fxl(r["A_per_layer"]))
                        out.append(nb)
            res = {}
            for pol in ("s", "p", "u"):
                o = tl.opts(wls, th, pol, st, force)
                if force and rng.random() < .5 and st.coherent:
                    pass
                s = tmm_structure(st.layers(), st.mat(0), st.mat(len(st.cls) - 1))
                res[pol] = tl.enc(s.calculate(o))
            ev.update(res=res, med=[st.med(w) for w in wls], kx=[st.kx(w, th) for w in wls], tol=tl.otol(st), normal=th == 0.0,
                      theta=th, ltol=5 if st.coherent else 10)
        except Exception as ex:
            import traceback
            ev["error"] = "%s: %s" % (type(ex).__name__, str(ex)[:200])
            ev["where"] = traceback.format_exc()[-800:]
        out.append(ev)
    return out


def recorded():
    """the fixed stacks of known_findings.txt"""
    import math
    from rayflare.transfer_matrix_method import tmm_structure
    out = []
    for cls, par, th, wl in ((["g", "W", "x"], [(3.5, 0, 0, 0, 0), (1.5, 0, 0, 0, 5000.), (3.5, 0, 1, 0, 0)], 1.2, 600e-9),
                             (["g", "m", "v"], [(1.5, 0, 0, 0, 0), (0.13, 0, 3.6, 0, 50.), (1, 0, 0, 0, 0)], math.radians(44), 650e-9)):
        st = tl.Stack(dict(a=cls[0], ls=cls[1:2], b=cls[2]), random.Random(1))
        st.par, st.ws = par, [par[1][4]]
        res = {p: tl.enc(tmm_structure(st.layers(), st.mat(0), st.mat(2)).calculate(tl.opts([wl], th, p, st))) for p in "spu"}
        out.append(dict(kind="recorded", error="", res=res, med=[st.med(wl)], kx=[st.kx(wl, th)], tol=2500, normal=False, ltol=10, theta=th))
    return out


def run(ctx):
    rng = random.Random(ctx.seed * 1000 + 11)
    ctx.model("MCTmm", tl.MODEL % (2, "FALSE" if ctx.thorough else "TRUE"), timeout=800)
    sh = tl.shapes(ctx, 4 if ctx.thorough else 3)
    items = [(s, rng.randrange(10**9)) for s in sh]
    rng.shuffle(items)
    if not ctx.thorough:
        items = [i for i in items if len(i[0]["ls"]) < 2] + items[:500]
    elif len(items) > 6000:
        items = items[:6000]
    tasks = [dict(items=items[k:k + 40]) for k in range(0, len(items), 40)]
    events = []
    for t, r in zip(tasks, ctx.pmap(task, tasks, timeout=300)):
        if isinstance(r, dict):
            r = [dict(kind="calc", error=r["error"], where=r.get("where", ""))]
        events += r
    import mat
    mat.quiet()
    events += recorded()
    ctx.notes["shapes"] = len(sh)
    ctx.validate("TmmTrace", events)
