"""C12: histories of stack edits generated by TmmSession, replayed on real stacks; the results of one history are compared with each
other and every one with the Tmm specification."""
import random
import numpy as np
from vlib import fx, fxl
import tmmlib as tl

CFG = """CONSTANTS NL = %d
 MaxLen = %d
 EmitOn = TRUE
INIT Init
NEXT Next
INVARIANTS Order Undone Emit
"""
ENDS = ["v", "g"]


def run_history(hist, seed):
    from rayflare.transfer_matrix_method import tmm_structure
    from solcore.structure import Layer
    rng = random.Random(seed)
    NL = len(hist[0]["scale"])
    kind = rng.random()
    classes = "damd" if kind < .6 else "damWD"
    for _ in range(200):
        shape = dict(a=rng.choice(ENDS), ls=[rng.choice(classes) for _ in range(NL)], b=rng.choice("vgx"))
        # an incoherent layer cannot be cut in two: only histories which leave incoherent layers whole
        whole = all(p[1] in (0, 8) or shape["ls"][p[0] - 1] in "dam" for s in hist for p in s["pieces"])
        if any(s["rev"] for s in hist) and shape["b"] == "x":
            continue
        if whole:
            break
    else:
        return None
    st = tl.Stack(shape, rng)
    wls = [rng.uniform(400e-9, 1000e-9) for _ in range(rng.choice([1, 2]))]
    # double widths must be usable as well
    st.par = [p[:4] + (p[4] * 2,) for p in st.par]
    th = tl.choose_angle(st, wls, rng)
    for _ in range(60):
        if th is None or not any(s["rev"] for s in hist):
            break
        n0, n1 = st.par[0][0], st.par[-1][0]
        th2 = [st.nk(0, w)[0] * np.sin(th) / st.nk(len(st.cls) - 1, w)[0] for w in wls]
        if max(th2) < .95 and st.usable(wls, np.arcsin(max(th2)), True):
            break
        th = rng.uniform(0, .6)
    else:
        th = 0.0
    st.par = [p[:4] + (p[4] / 2,) for p in st.par]
    if th is None:
        return None
    pol = rng.choice("spu")
    ins = (rng.uniform(1.2, 4), rng.uniform(0, 2))
    ends_lossless = st.par[-1][2] == 0
    mats = [st.mat(j) for j in range(len(st.cls))]
    from mat import Mat
    zmat = Mat(ins[0], ins[1], "zero")
    # the same transverse wave vector seen from either end: one calculation per wavelength, because the ends are dispersive
    obj, key = None, None
    steps, seen = [], {}
    for i, s in enumerate(hist):
        ls = [(zmat, 0.0, False) if p[0] == 0 else (mats[p[0]], st.ws[p[0] - 1] * s["scale"][p[0] - 1] * p[1] / 8, st.inc[p[0]]) for p in s["pieces"]]
        k = (tuple(map(tuple, s["pieces"])), s["rev"])
        if key != k:
            front, back = (mats[-1], mats[0]) if s["rev"] else (mats[0], mats[-1])
            obj = tmm_structure([Layer(w * 1e-9, m) for m, w, _ in ls], front, back)
            key = k
        else:
            w = [w for _, w, _ in ls]
            obj.set_widths(w if rng.random() < .5 else np.array(w))
        anyinc = any(x for _, _, x in ls)
        o = dict(pol=pol, depth_spacing=1e-9, coherent=not (anyinc or s["list"]))
        if not o["coherent"] or rng.random() < .3:
            o["coherency_list"] = ["i" if x else "c" for _, _, x in ls]
        rs = []
        for wl in wls:
            kx = st.nk(0, wl)[0] * np.sin(th)
            n0 = st.nk(len(st.cls) - 1 if s["rev"] else 0, wl)[0]
            r = obj.calculate(dict(o, wavelength=np.array([wl]), theta_in=float(np.arcsin(kx / n0))))
            rs.append(tl.enc(r))
        if rng.random() < .4 and not anyinc:     # unrelated use of the object in between
            obj.calculate(dict(o, wavelength=np.array([wls[0] * .9, wls[-1]]), theta_in=0.2, pol="u"))
        res = {q: sum((r[q] for r in rs), []) for q in ("R", "T", "A", "L")}
        med = []
        for wl in wls:
            ends = [dict(n=[fx(x) for x in st.nk(j, wl)], d=0, inc=False) for j in (0, len(st.cls) - 1)]
            mid = [dict(n=[fx(ins[0]), fx(ins[1])] if m is zmat else [fx(float(m.n(wl))), fx(float(m.k(wl)))], d=fx(w / (wl * 1e9)), inc=bool(x)) for m, w, x in ls]
            med.append([ends[1]] + mid + [ends[0]] if s["rev"] else [ends[0]] + mid + [ends[1]])
        mp = [[x + 1 for x, p in enumerate(s["pieces"]) if p[0] == j + 1] for j in range(NL)]
        sk = tuple(s["scale"])
        ref = seen.setdefault((sk, s["rev"]), i + 1)
        what = s["op"]
        r = ref if ref != i + 1 else 0
        revcmp = False
        if r == 0 and (sk, not s["rev"]) in seen and ends_lossless:
            r, revcmp = seen[(sk, not s["rev"])], True
        steps.append(dict(res, what=what, ref=r, rev=revcmp, tol=(2000 if anyinc else 20) if revcmp else (30 if anyinc else 5), map=mp, med=med,
                          kx=[st.kx(w, th) for w in wls], pol=pol, otol=tl.otol(st), width=fx(obj.width * 1e6), ws=[fx(w / 1e3) for _, w, _ in ls]))
    return dict(kind="edit", error="", seed=seed, ops=[s["op"] for s in hist], theta=th, shape=shape, steps=steps)


def task(t):
    import mat
    mat.quiet()
    out = []
    for hist, seed in t["items"]:
        try:
            r = run_history(hist, seed)
        except Exception as ex:
            import traceback
            r = dict(kind="edit", error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-800:], ops=[s["op"] for s in hist], seed=seed)
        if r:
            out.append(r)
    return out


def run(ctx):
    rng = random.Random(ctx.seed * 1000 + 12)
    ctx.model("MCTmm", tl.MODEL % (3 if ctx.thorough else 2, "TRUE"), timeout=800)
    beh = ctx.generate("TmmSession", CFG % (2, 4 if ctx.thorough else 3), workers=4, timeout=800)
    beh += ctx.generate("TmmSession", CFG % (1, 3), workers=4)
    if ctx.thorough:
        beh += ctx.generate("TmmSession", CFG % (3, 3), workers=4, timeout=800)
    rng.shuffle(beh)
    beh = beh[:5000 if ctx.thorough else 700]
    items = [(b, rng.randrange(10**9)) for b in beh]
    tasks = [dict(items=items[k:k + 30]) for k in range(0, len(items), 30)]
    events = []
    for r in ctx.pmap(task, tasks, timeout=300):
        events += [dict(kind="edit", error=r["error"], where=r.get("where", ""))] if isinstance(r, dict) else r
    ctx.notes["histories"] = len(beh)
    ctx.validate("TmmTrace", events)
