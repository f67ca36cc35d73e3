"""Scripted rays: crafted lookup tables make every surface of a planar stack reflect, transmit or absorb as the
specification's behaviour says; many behaviours are run at once, one per wavelength."""
import os, math, random
import numpy as np
from vlib import fx, BAD

GRID = [0.0, 0.35, 0.7, 1.05, 1.4]
SPLITS = {1: {"A1": [1.0], "A2": [1.0], "A3": [1.0]},
          2: {"A1": [1.0, 0.0], "A2": [0.0, 1.0], "A3": [0.25, 0.75]},
          3: {"A1": [0.5, 0.3, 0.2], "A2": [0.0, 1.0, 0.0], "A3": [0.0, 0.0, 1.0]}}


def outcome_arrays(o, nl):
    R = 1.0 if o == "R" else 0.0
    T = 1.0 if o == "T" else 0.0
    A = np.zeros(nl)
    if o[0] == "A":
        A[:] = SPLITS[nl][o]
    return R, T, A


def setting(rng, N, variant):
    """geometry and materials; no total internal reflection anywhere"""
    theta = 0.0 if variant.get("normal") else rng.choice([0.15, 0.4, 0.62])
    phi = rng.choice([0.0, 0.3, 1.2, 2.5, 4.0, 5.5])
    n = [round(rng.uniform(1.0, 2.2), 3) for _ in range(N + 1)]
    if variant.get("matched"):
        n = [1.3] * (N + 1)
    nmin = min(n)
    s0 = min(math.sin(theta), 0.8 * nmin / max(n))
    theta = math.asin(s0)
    w = [round(rng.uniform(300, 2000)) * 1e-6 for _ in range(N - 1)]          # m
    return theta, phi, n, w


def run_batch(task):
    """task: dict(N, m0, d0, items=[script...], variant, seed, savedir); returns events"""
    import mat
    mat.quiet()
    import xarray as xr
    from rayflare.ray_tracing import rt_structure
    from rayflare.textures import planar_surface
    from solcore.structure import Layer
    rng = random.Random(task["seed"])
    N, m0, d0, variant = task["N"], task["m0"], task["d0"], task["variant"]
    pol = variant["pol"]
    theta, phi, n, w = setting(rng, N, variant)
    items = task["items"]
    wls = np.array([(500 + 0.25 * i) * 1e-9 for i in range(len(items))])
    kx = n[m0] * math.sin(theta)
    th_m = [math.asin(kx / x) for x in n]
    # avoid incidence angles close to the middle between two table angles
    for t in th_m:
        if min(abs(t - (a + b) / 2) for a, b in zip(GRID, GRID[1:])) < 0.01:
            task = dict(task, seed=task["seed"] + 7919)
            return run_batch(task)
    ods = [0.0] + [rng.choice([0.16, 0.3, 0.5, 0.8, 1.3]) * math.cos(th_m[m + 1]) for m in range(N - 1)] + [0.0]
    wl0 = wls[0]
    def disp(wl, m):
        return 1 + 0.3 * np.sin(wl * 1e9 * 1.7 + m)
    mats = [mat.Mat(n[m], (lambda wl, m=m: ods[m] * disp(wl, m) * wl0 / (4 * math.pi * w[m - 1])) if 0 < m < N else 0.0,
                    "medium%d" % m) for m in range(N + 1)]
    nl = [rng.choice([1, 2, 3]) for _ in range(N)]
    fres = [False] * N
    if variant.get("matched"):
        # index-matched bare surfaces always transmit: mixing surfaces with and without layers
        fres = [rng.random() < 0.5 for _ in range(N)]
        if all(fres):
            fres[rng.randrange(N)] = False
        nl = [0 if f else x for f, x in zip(fres, nl)]
    loc = task["savedir"]
    proj = "proj"
    os.makedirs(os.path.join(loc, proj), exist_ok=True)
    scripts = []
    for it in items:
        sc = []
        for s in range(N):
            row = []
            for side in range(2):
                o = it["sc"][s][side]
                if fres[s]:
                    o = "T"
                elif o == "-":
                    o = rng.choice(["R", "T", "A1", "A2"])
                row.append(o)
            sc.append(row)
        scripts.append(sc)
    names = []
    for s in range(N):
        names.append("same" if variant.get("samename") else "surf%d" % s)
        if fres[s]:
            continue
        shape = (2, 3, len(wls), len(GRID))
        R = np.zeros(shape); T = np.zeros(shape); A = np.zeros(shape + (nl[s],))
        for si, side in enumerate([1, -1]):
            m_in = s if side == 1 else s + 1
            true_angle = int(np.argmin([abs(th_m[m_in] - g) for g in GRID]))
            for iw in range(len(wls)):
                for ip, p in enumerate(["s", "p", "u"]):
                    for ia in range(len(GRID)):
                        o = scripts[iw][s][0 if side == 1 else 1]
                        if p != pol or ia != true_angle:
                            o = rng.choice([x for x in ["R", "T", "A1", "A2", "A3"] if x != o])
                        R[si, ip, iw, ia], T[si, ip, iw, ia], A[si, ip, iw, ia] = outcome_arrays(o, nl[s])
        co = {"side": [1, -1], "pol": ["s", "p", "u"], "wl": wls * 1e9, "angle": GRID}
        ds = xr.Dataset({"R": (("side", "pol", "wl", "angle"), R), "T": (("side", "pol", "wl", "angle"), T),
                         "Alayer": (("side", "pol", "wl", "angle", "layer"), A)},
                        coords={**co, "layer": np.arange(1, nl[s] + 1)})
        ds.to_netcdf(os.path.join(loc, proj, names[s] + "int_%d.nc" % s))
    textures = []
    for s in range(N):
        size = rng.choice([1, 2.5, 10]) if not variant.get("nonperiodic") else 1
        if fres[s]:
            textures.append(planar_surface(size=size, name=names[s]))
        else:
            layers = [Layer(20e-9, mat.Mat(1.5, 0.1, "lay%d" % j)) for j in range(nl[s])]
            textures.append(planar_surface(size=size, interface_layers=layers, name=names[s]))
    dz = max(sum(w), 1e-6) / (4000 if task.get("profiles") else 50)
    opt = dict(wavelength=wls, theta_in=theta, phi_in=phi, I_thresh=task["thr"], pol=pol, nx=variant.get("nx", 1), ny=1, n_rays=variant.get("nr", 1),
               depth_spacing_bulk=dz, depth_spacing=1e-9, random_ray_position=False,
               randomize_surface=bool(variant.get("randomize")), parallel=False, project_name=proj,
               lookuptable_angles=len(GRID))
    if m0 or d0 != 1:
        opt["initial_material"] = m0
        opt["initial_direction"] = d0
    if variant.get("nonperiodic"):
        opt["periodic"] = 0
    st = rt_structure(textures, mats[1:-1], w, mats[0], mats[-1], options=opt, use_TMM=True, save_location=loc)
    res = st.calculate(opt)
    evs = []
    Araw = res["A_interfaces"]
    for i in range(len(items)):
        alpha_scale = wl0 / wls[i]
        e = dict(error="", N=N, m0=m0, d0=d0, sc=scripts[i], thr=fx(task["thr"]), n=[fx(x) for x in n],
                 sin0=fx(math.sin(theta)), phi0=fx(phi), od=[fx(x * alpha_scale * disp(wls[i], m)) for m, x in enumerate(ods)], nl=nl,
                 split=[{k: [fx(x / sum(v)) for x in v] for k, v in SPLITS[max(1, q)].items()} for q in nl],
                 R=fx(res["R"][i]), T=fx(res["T"][i]), R0=fx(res["R0"][i]),
                 A=[fx(x) for x in res["A_per_layer"][i]],
                 Ai=[[fx(x) for x in res["A_per_interface"][s][i]] for s in range(N)],
                 Araw=[[fx(x) for x in np.atleast_1d(Araw[i][s])] if np.ndim(Araw[i][s]) else [] for s in range(N)],
                 passes=[int(x) for x in res["n_passes"][i]], hits=[int(x) for x in res["n_interactions"][i]],
                 theta=[fx(x) for x in res["thetas"][i]], phi=[fx(x) for x in res["phis"][i]],
                 variant=variant, index=i)
        e["samples"], e["pint"] = [], []
        if task.get("profiles"):
            prof = np.asarray(res["profile"][i]) * 1e9            # per m
            z = np.arange(0, sum(w), dz)
            top = 0.0
            for m in range(1, N):
                ins = np.where((z >= top - 1e-12) & (z < top + w[m - 1] - 1e-12))[0]
                k0, k1 = ins[0], ins[-1]
                for f in (0.04, 0.3, 0.55, 0.8, 0.97):
                    j = k0 + int(round(f * (k1 - k0)))
                    e["samples"].append([m, fx((z[j] - top) / w[m - 1]), fx(prof[j] * w[m - 1])])
                # points next to a layer boundary may be counted to either layer: integrate inside and extend to the edges
                inn = ins[2:-2]
                e["pint"].append(fx(np.trapz(prof[inn], z[inn]) + prof[inn[0]] * (z[inn[0]] - top)
                                    + prof[inn[-1]] * (top + w[m - 1] - z[inn[-1]])))
                top += w[m - 1]
        evs.append(e)
    return evs


def run_batch_safe(task):
    try:
        return run_batch(task)
    except Exception as ex:
        import traceback
        return [dict(error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-800:],
                     N=task["N"], m0=task["m0"], d0=task["d0"], sc=it["sc"], variant=task["variant"]) for it in task["items"]]


CFG = """CONSTANTS MaxN = %d
 Outcomes = {%s}
 Trs <- %s
 Thr = %d
 EmitOn = %s
INIT Init
NEXT Next
INVARIANTS TypeOK Ledger Booking InOrder OnlyCrossed Crossings Emit
PROPERTY Monotone
"""


def behaviours(ctx, maxn, outcomes=("R", "T", "A1", "A2"), trs="Trs1", thr=80000):
    q = ", ".join('"%s"' % o for o in outcomes)
    return ctx.generate("MCRay", CFG % (maxn, q, trs, thr, "TRUE"))
