"""C19: histories of options objects generated by MCOptions, replayed through every way of calculating something."""
import random, os, hashlib
import numpy as np
import entrylib as E

CFG = """CONSTANTS N = %d
 Mode = "%s"
 EmitOn = %s
INIT Init
NEXT Next
INVARIANTS AsMeant TypeOK Emit
"""
SETS = {1: [1, 2], 2: [3]}
MIX = ["tmm", "tmmprof", "nbr", "gen", "rt", "rtprof"]
SLOW = {"genrcwa": 3, "rcwaprof": 8, "rcwa": 4, "fields": 3, "mxrcwa": 4, "mxrttmm": 5, "rttmm": 6, "mxrtf": 2}
SKIP = ("wavelength", "wavelengths", "S4_options")


def digest(o):
    return hashlib.sha1(repr(sorted((str(k), repr(v)) for k, v in o.items() if k not in SKIP)).encode()).hexdigest()[:16]


def pristine():
    from rayflare.options import default_options
    return default_options()


def bad_pols():
    l = [(v, v, False) for v in ("x", "S", "P", "U", "", "sp", "su", "unpolarised", "s", "p", "u")]
    return l + [("none", None, False), ("three", (1, 0, 0), False), ("amplitudes", (.6, .8), True)]


def group(t):
    """one world, the reference results of some entries, and histories"""
    W = E.World(t["seed"], rays=48)
    n = [0]

    def loc():
        n[0] += 1
        d = os.path.join(t["dir"], "h%d_%d" % (t["n"], n[0]))
        os.makedirs(d, exist_ok=True)
        return d

    first = pristine()
    sp = {e: W.special(e) for e in t["entries"]}
    par = lambda k: dict(parallel=bool(k % 2), n_jobs=1)
    base = dict(sp[t["entries"][0]], **par(t["seed"]))
    first.update(base)
    first = dict(first)
    ev = [dict(op="start", error="", rest=digest(first))]
    for e in t["entries"]:
        for v in SETS:
            o = W.blank("State", dict(sp[e], wavelength=W.lam(SETS[v])))
            ev.append(dict(op="ref", error="", entry=e, v=v, **W.run(e, o, loc())))
    for hi, h in enumerate(t["hists"]):
        ev.append(dict(op="begin", error=""))
        objs, forms = [], []
        for k, x in enumerate(h):
            r = dict(op=x["op"], i=x["i"], v=x["v"], form=x["form"], error="")
            try:
                o = objs[x["i"] - 1] if x["op"] != "new" else None
                if x["op"] == "new":
                    objs.append(W.blank(x["form"], base))
                    forms.append(x["form"])
                elif x["op"] in ("sing", "plu"):
                    key = "wavelength" if x["op"] == "sing" else "wavelengths"
                    if forms[x["i"] - 1] in ("default", "attr") and (k + hi) % 2:
                        setattr(o, key, W.lam(SETS[x["v"]]))
                    else:
                        o[key] = W.lam(SETS[x["v"]])
                elif x["op"] == "nest":
                    o["S4_options"]["Verbosity"] = 7
                elif x["op"] == "poke":
                    o["wavelength"][0] = 123e-9
                elif x["op"] == "calc":
                    e = t["entries"][(hi + k) % len(t["entries"])]
                    r["entry"] = e
                    r.update(W.run(e, o, loc()))
                else:
                    r.update(nest=int(o["S4_options"]["Verbosity"] == 7), poked=bool(o["wavelength"][0] == 123e-9), rest=digest(o))
            except Exception as ex:
                import traceback
                r.update(error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-700:], entry=r.get("entry", ""), hist=h, seed=t["seed"])
            ev.append(r)
    return [ev]


def reject(t):
    """one attempt to calculate with input which may have to be rejected"""
    from rayflare.structure import Interface, BulkLayer, Structure
    W = E.World(t["seed"], rays=16)
    W.text = "planar"
    ev = dict(t["ev"], op="bad", error="")
    try:
        if ev["what"] == "method":
            Interface(ev["val"], layers=[], name="x")
        elif ev["what"] == "pol":
            o = W.blank(t["form"], dict(W.special(ev["entry"]), pol=t["pol"], wavelength=W.lam([1])))
            W.run(ev["entry"], o, t["dir"])
        else:
            lst = t["list"]
            o = W.blank(t["form"], dict(W.base, wavelength=W.lam([1])))
            if ev["entry"] == "inc":
                from rayflare.transfer_matrix_method import tmm_structure
                o["coherent"] = ev["coherent"]
                if lst != "absent":
                    o["coherency_list"] = lst
                else:
                    del o["coherency_list"]
                tmm_structure(W.lfront, W.inc, W.sub).calculate(o)
            elif ev["entry"] == "lookup":
                from rayflare.transfer_matrix_method.lookup_table import make_TMM_lookuptable
                make_TMM_lookuptable(W.lfront, W.inc, W.bulk, "lk", o, t["dir"], coherent=ev["coherent"], **({} if lst == "absent" else dict(coherency_list=lst)))
            elif ev["entry"] == "texture":
                from rayflare.textures import planar_surface
                from rayflare.ray_tracing import rt_structure
                kw = {} if lst == "absent" else dict(coherency_list=lst)
                tx = planar_surface(interface_layers=W.lfront, name="s0", **kw)
                rt_structure([tx, planar_surface()], [W.bulk], [8e-6], W.inc, W.sub, o, True, t["dir"], True).calculate(o)
            else:
                kw = {} if lst == "absent" else dict(coherency_list=lst)
                if ev["entry"] == "RT_TMM":
                    kw["texture"] = W.texture(0)
                f = Interface(ev["entry"], layers=W.lfront, name="f", coherent=ev["coherent"], **kw)
                s = Structure([f, BulkLayer(8e-6, W.bulk, name="bulk"), Interface("Mirror", layers=[], name="b")], incidence=W.inc, transmission=W.sub)
                from rayflare.matrix_formalism import process_structure, calculate_RAT
                process_structure(s, o, t["dir"], overwrite=True)
                calculate_RAT(s, o, t["dir"])
    except Exception as ex:
        ev["error"] = "%s: %s" % (type(ex).__name__, str(ex)[:120])
    return [[ev]]


def task(t):
    import mat
    mat.quiet()
    out = []
    for x in t:
        out += group(x) if x["kind"] == "group" else reject(x)
    return out


def run(ctx):
    rng = random.Random(ctx.seed * 100 + 19)
    ctx.model("MCOptions", CFG % (6 if ctx.thorough else 5, "ok", "FALSE"), timeout=600)
    for m in ("singular", "stale", "shared", "sharedarray"):
        ctx.model("MCOptions", CFG % (5, m, "FALSE"), expect_violation="AsMeant")
    hists = ctx.generate("MCOptions", CFG % (5, "ok", "TRUE"), workers=1)
    hists.sort(key=repr)
    calcs = lambda h: sum(x["op"] == "calc" for x in h)
    # every form and naming of a single calculation: new, one or two times wavelengths, calculation
    single = [h for h in hists if calcs(h) == 1 and h[-1]["op"] == "calc" and sum(x["op"] == "new" for x in h) == 1 and len(h) in (3, 4)
              and all(x["op"] in ("new", "sing", "plu", "calc") for x in h) and len({x["op"] for x in h}) == len(h)]
    more = [h for h in hists if len(h) == 5 and h not in single]
    rng.shuffle(more)
    shared = [h for h in more if h[-1]["op"] == "look" and sum(x["op"] == "new" for x in h) == 2]
    multi = [h for h in more if calcs(h) >= 2]
    k = 5 if ctx.thorough else 1
    tasks = []
    for r in range(k):
        for e in E.ALL:
            hs = single[:]
            rng.shuffle(hs)
            slow = SLOW.get(e, 1)
            if slow > 1 and not ctx.thorough:
                # all forms, all namings, not all combinations
                pick, forms, names = [], set(), set()
                for h in hs:
                    f, q = h[0]["form"], tuple(x["op"] for x in h)
                    if f not in forms or q not in names:
                        pick.append(h)
                        forms.add(f)
                        names.add(q)
                hs = pick
            elif slow == 1:
                hs += multi[:12]
                multi = multi[12:] + multi[:12]
            cut = max(1, len(hs) // 5) if slow > 1 else len(hs)
            for i in range(0, len(hs), cut):
                tasks.append((slow * (len(hs[i:i + cut]) + 3), [dict(kind="group", seed=rng.randrange(10**8), entries=[e], hists=hs[i:i + cut])]))
        for _ in range(6):
            hs = multi[:10] + shared[:15]
            multi, shared = multi[10:] + multi[:10], shared[15:] + shared[:15]
            tasks.append((9, [dict(kind="group", seed=rng.randrange(10**8), entries=MIX, hists=hs)]))
    rej = []
    for v in ("RT_Fresnel", "RT_TMM", "RCWA", "TMM", "Mirror", "Lambertian", "rcwa", "tmm", "RT", "", "mirror", "Fresnel", "RayTracing", "S4"):
        rej.append(dict(ev=dict(what="method", val=v)))
    for e in E.ALL:
        if e in ("fields", "lookup"):
            continue
        ps = bad_pols()
        if SLOW.get(e, 1) > 1 and not ctx.thorough:
            amp = ps.pop()
            ps = rng.sample([p for p in ps if p[0] not in ("s", "p", "u")], 5) + [amp]
        for name, val, amp in ps:
            rej.append(dict(ev=dict(what="pol", entry=e, val=name, amp=amp), pol=val))
    for e in ("inc", "lookup", "texture", "TMM", "RT_TMM"):
        for lst in ("absent", None, [], ["c"], ["i"], ["c", "i", "c"], ["c", "x"], ["i", ""], ["c", "c"], ["c", "i"], ["i", "i"]):
            for coh in (True, False):
                if e == "texture" and (coh or lst in ("absent", None)) or coh and lst not in (None, "absent", ["c", "c"]):
                    continue
                g = isinstance(lst, list)
                rej.append(dict(list=lst, ev=dict(what="coherence", entry=e, coherent=coh, given=g, good=sum(x in "ci" and x != "" for x in lst) if g else 0,
                                                 wrong=sum(x not in ("c", "i") for x in lst) if g else 0, layers=2)))
    for x in rej:
        x.update(kind="bad", seed=rng.randrange(10**8), form=rng.choice(["State", "default", "dict", "odict", "attr"]), dir=ctx.scratch("rej"))
    tasks += [(3, rej[i:i + 6]) for i in range(0, len(rej), 6)]
    tasks.sort(key=lambda t: -t[0])
    for i, (_, t) in enumerate(tasks):
        for x in t:
            if x["kind"] == "group":
                x.update(dir=ctx.scratch("opt"), n=i)
    groups = []
    for r in ctx.pmap(task, [t for _, t in tasks], timeout=400):
        groups += [[dict(op="calc", i=1, v=0, error=r["error"], where=r.get("where", ""))]] if isinstance(r, dict) else r
    ctx.notes["calculations"] = sum(e["op"] == "calc" for g in groups for e in g)
    ctx.notes["inputs to reject or accept"] = len(rej)
    ctx.validate("OptionsTrace", [e for g in groups for e in g], groups=groups)
