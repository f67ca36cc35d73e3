"""C05: the matrix method accounts for every bounce. The behaviours of the Matrix specification (all combinations of column
types) and larger random systems are stored as crafted matrices, run through the real calculate_RAT, and the recorded ledger is
checked pass by pass by MatrixTrace."""
import math, random
import numpy as np
import matlib
from vlib import fx, fxl

CFG = """CONSTANTS Kinds <- %s
 Bulks <- B2
 Launches <- L2
 Thr = 10000
 EmitOn = %s
INIT Init
NEXT Next
INVARIANTS Ledger PerPass Positive Emit
PROPERTY PowerFalls
"""


def col(k, j, n):
    """same column types as MCMatrix"""
    R, T, A = np.zeros(n), np.zeros(n), 0.0
    o = 1 - j
    if k == "R":
        R[j] = 1
    elif k == "T":
        T[j] = 1
    elif k == "swap":
        R[o], T[j] = .7, .3
    elif k == "mix":
        R[j], R[o], T[j], T[o], A = .25, .15, .4, .1, .1
    elif k == "abs":
        R[j], T[o], A = .3, .2, .5
    return R, T, np.array([A])


def from_kinds(ks):
    cols = [col(k, j, 2) for j, k in enumerate(ks)]
    return [np.array([c[i] for c in cols]).T for i in range(3)]           # rows x columns


def random_surface(rng, n, nl, style):
    """(rows x columns) R, T, A with entries on the 1e-6 grid; columns sum to 1"""
    R, T, A = np.zeros((n, n)), np.zeros((n, n)), np.zeros((nl, n))
    for j in range(n):
        w = np.array([rng.random() ** 3 for _ in range(2 * n + nl)])
        if style == "sparse":
            w *= np.array([rng.random() < 0.3 for _ in w])
        if style == "opaque":
            w[n:2 * n] = 0
        if style == "closed":
            w[:] = 0
            w[rng.randrange(n)] = 1
        if w.sum() == 0:
            w[rng.randrange(n)] = 1
        w = np.floor(w / w.sum() * 1e6)
        w[int(np.argmax(w))] += 1e6 - w.sum()
        w = np.round(w) / 1e6
        R[:, j], T[:, j], A[:, j] = w[:n], w[n:2 * n], w[2 * n:]
    return R, T, A


def run_case(t):
    import mat
    mat.quiet()
    from rayflare.matrix_formalism import calculate_RAT
    d = t["d"]
    rng = random.Random(t["seed"])
    N = matlib.n_in(d)
    loc = t["dir"]
    nw = len(t["sys"])
    wls = np.array([(500 + 13 * i) * 1e-9 for i in range(nw)])
    if t.get("order"):
        wls = wls[::-1].copy()
    width = t["width"]
    # optical depth alpha*d per wavelength: k = od*wl/(4 pi d)
    ods = np.array([s["od"] for s in t["sys"]])
    table = {float("%.12g" % w): o for w, o in zip(wls, ods)}

    def kfun(wl):
        return np.array([table[float("%.12g" % w)] * w / (4 * math.pi * width) for w in np.atleast_1d(wl)])
    bulk = mat.Mat(3.5, kfun)
    S = t["sys"]
    flat = t.get("flat")                       # 2-D matrices (no wavelength dimension)
    def pack(a, b):
        m = np.stack([np.vstack([x, y]) for x, y in zip(a, b)])
        return m[0] if flat else m
    def packA(a):
        m = np.stack(a)
        return m[0] if flat else m
    prof = t.get("prof", (0, 0))
    nz = t.get("nz", 4)
    P = {}
    for nm, key, on in (("f", "Af", prof[0]), ("b", "Ab", prof[0]), ("2", "A2", prof[1])):
        if on:
            arr = np.zeros((nw, nz, N))
            for i in range(nw):
                tot = S[i][key].sum(0)
                for j in range(N):
                    w = np.array([rng.random() for _ in range(nz)])
                    w = w / np.trapz(w)
                    arr[i, :, j] = np.round(w * tot[j], 6)
            P[nm] = arr
    I = lambda key: np.stack([s[key].sum(0) for s in S])
    matlib.save(loc, "front", "front", pack([s["Rf"] for s in S], [s["Tf"] for s in S]), packA([s["Af"] for s in S]), P.get("f"), I("Af"), wls)
    matlib.save(loc, "front", "rear", pack([s["Tb"] for s in S], [s["Rb"] for s in S]), packA([s["Ab"] for s in S]), P.get("b"), I("Ab"), wls)
    matlib.save(loc, "back", "front", pack([s["R2"] for s in S], [s["T2"] for s in S]), packA([s["A2"] for s in S]), P.get("2"), I("A2"), wls)
    sym = 2 * math.pi / d["k"]
    o = matlib.options(d, wavelength=wls, theta_in=t["theta"], phi_in="all" if t["all"] else sym * t["az"][0] / t["az"][1],
                       I_thresh=t["thr"], bulk_profile=bool(t.get("bulk")), depth_spacing_bulk=width / 400)
    SC = matlib.structure(width, bulk, prof=([1] if prof[0] else None, [1] if prof[1] else None), nlay=(S[0]["Af"].shape[0], S[0]["A2"].shape[0]))
    if t.get("asstate"):
        from solcore.state import State
        o = State(o)
    res = calculate_RAT(SC, o, loc)
    RAT, per = res[0], res[1]
    # wavelength coordinate of the result
    edges = [i * math.pi / 2 / d["n"] if d["lin"] else math.asin(i / d["n"]) for i in range(d["n"] + 1)]
    ev = dict(error="", d=d, theta=fx(t["theta"]), az=t["az"], all=bool(t["all"]), thr=fx(t["thr"]), edges=fxl(edges), wl=[], prof=[])
    cols = lambda M: fxl(np.asarray(M).T)
    for i, s in enumerate(S):
        w = dict(od=fx(s["od"]), **{k: cols(s[k]) for k in ("Rf", "Tf", "Af", "Rb", "Tb", "Ab", "R2", "T2", "A2")})
        w["Pf"] = cols(P["f"][i]) if "f" in P else []
        w["Pb"] = cols(P["b"][i]) if "b" in P else []
        w["P2"] = cols(P["2"][i]) if "2" in P else []
        ev["wl"].append(w)
    if prof[0]:
        ev["prof"].append(dict(at=1, nz=nz))
    if prof[1]:
        ev["prof"].append(dict(at=2, nz=nz))
    ob = dict(r=fxl(per["r"][0]), t=fxl(per["t"][0]), a1=fxl(per["a"][0]), a2=fxl(per["a"][1]), A=fxl(per["A"][0]),
              R=fxl(RAT["R"].data[0]), T=fxl(RAT["T"].data[0]), Abulk=fxl(RAT["A_bulk"].data[0]),
              Aint=fxl(RAT["A_interface"].data) if "A_interface" in RAT else [], prof=[], bulk=[])
    wantprof = prof[0] or prof[1] or t.get("bulk")
    if wantprof:
        ob["prof"] = [fxl(np.asarray(p)) for p in res[2]]
        if t.get("bulk"):
            bp = np.asarray(res[3][0]) * width
            for i in range(nw):
                for f in (0.03, 0.25, 0.5, 0.75, 0.97):
                    ob["bulk"].append([i + 1, fx(f), fx(np.interp(f, np.arange(bp.shape[1]) / 400, bp[i]))])
    if not np.allclose(RAT["wl"].data, wls):
        ob["R"] = [-1] * nw
    ev["obs"] = ob
    return ev


def safe(t):
    try:
        return run_case(t)
    except Exception as ex:
        import traceback
        return dict(error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-900:], d=t["d"], theta=fx(t["theta"]),
                    az=t["az"], all=bool(t["all"]), opts={k: t.get(k) for k in ("prof", "bulk", "flat", "thr", "nz")})


def cases(ctx):
    rng = random.Random(ctx.seed * 31 + 5)
    beh = ctx.generate("MCMatrix", CFG % ("K5" if ctx.thorough else "K4", "TRUE"), workers=ctx.ncpu)
    rng.shuffle(beh)
    beh = [b for b in beh if b["passes"] < 6]
    # each behaviour once per run in the quick tier for a sample, all of them in the thorough tier
    if not ctx.thorough:
        beh = beh[:2400]
    tasks = []
    A = dict(n=2, cp=1, cq=4, k=4, lin=False)
    B = dict(n=1, cp=2, cq=1, k=3, lin=False)
    for ln in (1, 2):
        part = [b for b in beh if b["key"]["ln"] == ln]
        i = 0
        while i < len(part):
            g = rng.choice([1, 2, 5, 9, 14])
            sysl = []
            for b in part[i:i + g]:
                k = b["key"]
                Rf, Tf, Af = from_kinds(k["f"]); Rb, Tb, Ab = from_kinds(k["b"]); R2, T2, A2 = from_kinds(k["g"])
                sysl.append(dict(Rf=Rf, Tf=Tf, Af=Af, Rb=Rb, Tb=Tb, Ab=Ab, R2=R2, T2=T2, A2=A2, od=0.0 if k["bk"] == 1 else 0.25))
            i += g
            d = dict(A, k=rng.choice([1, 2, 4, 8]), lin=rng.random() < .3) if ln == 1 else dict(B, k=rng.choice([1, 3]))
            tasks.append(dict(d=d, sys=sysl, theta=0.2 if ln == 1 else rng.choice([0.0, 0.7]), az=[1, 3], all=ln == 2, thr=0.01, width=20e-6,
                              prof=rng.choice([(0, 0), (0, 0), (1, 0), (0, 1), (1, 1)]), bulk=rng.random() < .4))
    # larger random systems
    ds = [dict(n=n, cp=p, cq=q, k=k, lin=l) for n in (2, 3, 4) for p, q in ((1, 4), (1, 2), (1, 1)) for k in (2, 4, 8) for l in (False, True)]
    n_rand = 160 if not ctx.thorough else 900
    for i in range(n_rand):
        d = rng.choice(ds)
        N = matlib.n_in(d)
        nl, nl2 = rng.choice([1, 2, 3]), rng.choice([1, 2])
        nw = 1 if N > 6 else rng.choice([1, 2, 3])
        style = lambda: rng.choice(["full", "full", "sparse", "opaque"])
        flat = rng.random() < .15
        sysl = []
        for _ in range(nw):
            f = random_surface(rng, N, nl, rng.choice(["full", "sparse", "closed" if rng.random() < .3 else "full"]))
            b = random_surface(rng, N, nl, rng.choice(["full", "sparse"]))
            g = random_surface(rng, N, nl2, style())
            s = dict(zip(("Rf", "Tf", "Af", "Rb", "Tb", "Ab", "R2", "T2", "A2"), f + b + g))
            s["od"] = rng.choice([0.0, 0.05, 0.4, 1.5])
            sysl.append(s)
        if flat:
            sysl = [dict(sysl[0], od=s["od"]) for s in sysl]
        t = rng.randrange(d["n"])
        e0, e1 = [(x * math.pi / 2 / d["n"] if d["lin"] else math.asin(x / d["n"])) for x in (t, t + 1)]
        theta = e0 + (e1 - e0) * rng.choice([0.1, 0.5, 0.9])
        tasks.append(dict(d=d, sys=sysl, theta=theta, az=[rng.choice([1, 10, 23, 36]), 37], all=rng.random() < .25,
                          thr=rng.choice([0.05, 0.01, 0.002]), width=rng.choice([2e-6, 1.5e-4]), flat=flat, order=rng.random() < .3, asstate=rng.random() < .3,
                          prof=(0, 0) if flat else rng.choice([(0, 0), (1, 0), (0, 1), (1, 1)]), bulk=rng.random() < .5, nz=rng.choice([2, 5])))
    for i, t in enumerate(tasks):
        t["seed"] = rng.randrange(10**9)
        t["dir"] = ctx.scratch("mm")
    return tasks, len(beh)


def run(ctx):
    tasks, nb = cases(ctx)
    res = ctx.pmap(safe, tasks, timeout=120)
    events = [dict(r, d=t["d"]) if "obs" not in r else r for t, r in zip(tasks, res)]
    ctx.notes["behaviours"] = nb
    ctx.notes["calculations"] = len(events)
    ctx.validate("MatrixTrace", events)
