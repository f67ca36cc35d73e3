"""C06: angular channels. Every discretisation of the Channels specification (within bounds) is built by the real code; its
table, where light is launched, how outgoing light is handed to the next surface and where specular surfaces send light are
recorded and checked by ChannelTrace."""
import math, random
import numpy as np
import matlib
from vlib import fx, fxl


def table_event(d):
    from rayflare.angles import make_angle_vector
    sym, c = 2 * math.pi / d["k"], d["cp"] / d["cq"]
    if d["lin"]:
        th, ph, av = make_angle_vector(d["n"], sym, c, "linear")
    else:
        th, ph, av = make_angle_vector(d["n"], sym, c)
    return dict(kind="table", error="", d=d, edges=fxl(np.asarray(th)), phis=[fxl(np.asarray(p)) for p in ph], rows=fxl(np.asarray(av)))


AZ = [(0, 1), (1, 2), (1, 3), (2, 3), (1, 4), (3, 4), (1, 7), (6, 7), (999, 1000), (1, 1000)]


def thetas(d, rng):
    n = d["n"]
    edges = [i * math.pi / 2 / n if d["lin"] else math.asin(i / n) for i in range(n + 1)]
    out = [0.0, math.pi / 2 - 1e-3]
    for a, b in zip(edges, edges[1:]):
        out += [a + (b - a) * rng.uniform(0.05, 0.95), b]
    return out


def launch_events(ctx_tmp, d, rng, wl, full):
    """front surface reflects every channel into itself: the reflected power shows the launch vector"""
    import mat
    from rayflare.matrix_formalism import calculate_RAT
    N = matlib.n_in(d)
    I, Z = np.eye(N), np.zeros((N, N))
    matlib.save(ctx_tmp, "front", "front", np.vstack([I, Z]), np.zeros((1, N)))
    matlib.save(ctx_tmp, "front", "rear", np.vstack([Z, Z]), np.zeros((1, N)))
    matlib.save(ctx_tmp, "back", "front", np.vstack([Z, Z]), np.zeros((1, N)))
    SC = matlib.structure(1e-6, mat.Mat(3.5, 0.0))
    sym = 2 * math.pi / d["k"]
    evs = []
    ths = thetas(d, rng)
    if not full:
        ths = ths[:2] + rng.sample(ths[2:], min(3, len(ths) - 2))
    azs = AZ if full else rng.sample(AZ, 4)

    def launch(theta, phi):
        o = matlib.options(d, wavelength=wl, theta_in=theta, phi_in=phi)
        res = calculate_RAT(SC, o, ctx_tmp)
        return matlib.onehot(res[1]["r"][0][0, rng.randrange(len(wl))])
    for th in ths:
        for (a, b) in azs:
            az, power = [], []
            ps = [0, 1, -1, 2, d["k"], -d["k"], 3 * d["k"] + 1] if full else [0] + rng.sample([1, -1, 2, d["k"], -d["k"], 3 * d["k"] + 1], 3)
            for p in ps:
                az.append([a + p * b, b])
                power.append(launch(th, (a / b + p) * sym))
            evs.append(dict(kind="launch", error="", d=d, theta=fx(th), az=az, power=power))
        evs.append(dict(kind="spread", error="", d=d, theta=fx(th), power=[launch(th, "all")]))
    return evs


def hand_events(loc, d, wl):
    """downwards: front transmits the launched channel into outgoing channel c, the back surface transmits incoming channel i
    into i; upwards: the back reflects into c and the front's rear transmits i into i. One wavelength per channel."""
    import mat
    from rayflare.matrix_formalism import calculate_RAT
    N = matlib.n_in(d)
    I, Z = np.eye(N), np.zeros((N, N))
    wls = (500 + np.arange(N)) * 1e-9
    SC = matlib.structure(1e-6, mat.Mat(3.5, 0.0))
    o = matlib.options(d, wavelength=wls, theta_in=0.0, phi_in=0.0, I_thresh=0.5)
    evs = []
    send = np.zeros((N, N, N))
    for c in range(N):
        send[c, c, :] = 1
    Z3 = np.zeros((N, N, N))
    one = lambda M: np.stack([M] * N)
    A0 = np.zeros((N, 1, N))
    # down
    matlib.save(loc, "front", "front", np.concatenate([Z3, send], 1), A0)
    matlib.save(loc, "front", "rear", one(np.vstack([Z, Z])), A0)
    matlib.save(loc, "back", "front", one(np.vstack([Z, I])), A0)
    res = calculate_RAT(SC, o, loc)
    t = res[1]["t"][0][0]
    evs.append(dict(kind="hand", error="", d=d, up=False, map=[[N + c, matlib.onehot(t[c])] for c in range(N)]))
    # up: any incoming channel at the back is reflected into outgoing channel c
    matlib.save(loc, "back", "front", np.concatenate([send, Z3], 1), A0)
    matlib.save(loc, "front", "rear", one(np.vstack([I, Z])), A0)
    res = calculate_RAT(SC, o, loc)
    r = res[1]["r"][0][1]
    evs.append(dict(kind="hand", error="", d=d, up=True, map=[[c, [[x[0] + N, x[1]] for x in matlib.onehot(r[c])]] for c in range(N)]))
    return evs


def spec_events(loc, d):
    """the real matrices of planar surfaces (index matched, so transmission goes straight on, and a perfect mirror)"""
    import mat
    from sparse import load_npz
    from solcore.structure import Layer
    from rayflare.structure import Interface, BulkLayer, Structure
    from rayflare.matrix_formalism import process_structure
    import os
    N = matlib.n_in(d)
    m = mat.Mat(1.7, 0.0)
    wl = np.array([500e-9, 600e-9])
    evs = []
    sc = Structure([Interface("TMM", layers=[Layer(80e-9, mat.Mat(2.3, 0.0))], name="film"), BulkLayer(1e-6, m, name="b"),
                    Interface("Mirror", layers=[], name="mirror")])
    sc.incidence = m
    sc.transmission = m
    process_structure(sc, matlib.options(d, wavelength=wl), loc, overwrite=True)
    def ev(M, front, off):
        return dict(kind="spec", error="", d=d, front=front, map=[[off + c, matlib.onehot(M[:, c])] for c in range(M.shape[1])])
    for side, off in (("front", 0), ("rear", N)):
        M = load_npz(os.path.join(loc, "proj", "film" + side + "RT.npz")).todense()
        evs.append(ev(M[1], side == "front", off))
    M = load_npz(os.path.join(loc, "proj", "mirrorfrontRT.npz")).todense()
    evs.append(ev(M, True, 0))
    return evs


def task(t):
    import mat
    mat.quiet()
    d, rng = t["d"], random.Random(t["seed"])
    what = t["what"]
    try:
        if what == "table":
            return [table_event(d)]
        if what == "launch":
            return launch_events(t["dir"], d, rng, np.array([400e-9, 700e-9, 900e-9]), t["full"])
        if what == "hand":
            return hand_events(t["dir"], d, None)
        return spec_events(t["dir"], d)
    except Exception as ex:
        import traceback
        return [dict(kind=what, d=d, error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-900:])]


def run(ctx, kinds=("table", "launch", "hand", "spec")):
    rng = random.Random(ctx.seed * 77 + 6)
    ctx.model("MCChannels", matlib.CFG_CH % (5 if not ctx.thorough else 8, "F5", "1, 2, 3, 4, 6, 8", "FALSE"))
    ds = ctx.generate("MCChannels", matlib.CFG_CH % (6 if not ctx.thorough else 9, "F5", "1, 2, 3, 4, 6, 8", "TRUE"))
    rng.shuffle(ds)
    tasks = []
    big = [dict(n=n, cp=1, cq=q, k=k, lin=l) for n, q, k, l in [(20, 4, 4, False), (33, 4, 8, True), (50, 4, 4, False)]]
    for i, d in enumerate(ds + big):
        tasks.append(dict(what="table", d=d, seed=0))
        N = matlib.n_in(d)
        if "launch" in kinds and (ctx.thorough or i % 6 == 0):
            tasks.append(dict(what="launch", d=d, seed=rng.randrange(10**9), dir=ctx.scratch("m"), full=ctx.thorough and N < 12))
        if "hand" in kinds and N <= 60 and (ctx.thorough or i % 3 == 0):
            tasks.append(dict(what="hand", d=d, seed=rng.randrange(10**9), dir=ctx.scratch("m")))
        if "spec" in kinds and N <= 60 and (ctx.thorough or i % 6 == 1):
            tasks.append(dict(what="spec", d=d, seed=rng.randrange(10**9), dir=ctx.scratch("m")))
    tasks = [t for t in tasks if t["what"] in kinds]
    res = ctx.pmap(task, tasks, timeout=200)
    events = []
    for t, r in zip(tasks, res):
        if isinstance(r, dict):
            r = [dict(kind=t["what"], d=t["d"], error=r["error"])]
        events += r
    ctx.notes["discretisations"] = len(ds)
    ctx.notes["events"] = {k: sum(e["kind"] == k for e in events) for k in set(e["kind"] for e in events)}
    ctx.validate("ChannelTrace", events)
