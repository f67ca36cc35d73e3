"""C24: sequences of calculations generated by MCPurity on shared inputs: digests of all inputs before and after each one,
results against those from inputs made freshly."""
import random, os, hashlib, re
import numpy as np
import entrylib as E

CFG = """CONSTANTS Entries = {%s}
 Dirty = {%s}
 Mode = "%s"
 N = %d
 EmitOn = %s
INIT Init
NEXT Next
INVARIANTS %s Emit
"""
READ = ["readlookup", "readmxtmm", "readmxrcwa", "readmxrttmm"]
ENTRIES = E.ALL + READ
SLOW = ("mxrttmm", "rttmm", "mxrtf", "mxrcwa", "readmxrttmm", "rt", "rtprof")


def files(d):
    h = hashlib.sha1()
    for r, _, fs in sorted(os.walk(d)):
        for f in sorted(fs):
            p = os.path.join(r, f)
            h.update(os.path.relpath(p, d).encode() + b"\\0" + open(p, "rb").read())
    return h.hexdigest()[:16]


# what describes a structure object (it may also remember its last results and whatever makes it faster)
DESCRIBES = re.compile(r"\.(widths|width|size|geom_list|shape_mats|incidence|transmission|textures|mats|no_back_reflection|layer_stack\.widths|layer_stack\.num_layers)\b")


class Shared:
    """a world whose inputs are all made before the first calculation"""

    def __init__(self, seed, entries, dir, form, plural):
        W = self.W = E.World(seed, rays=32)
        self.dir, self.n = dir, 0
        os.makedirs(dir, exist_ok=True)
        W.base.update(nx=2, ny=2)
        self.opts, self.name = {}, {}
        for e in entries:
            b = e[4:] if e.startswith("read") else e
            v = dict(W.special(b), **{"wavelengths" if plural else "wavelength": W.lam([1, 3])})
            key = repr(sorted((k, x) for k, x in v.items() if not k.startswith("wavelength")))
            if key not in self.opts:
                self.opts[key] = W.blank(form, v)
            self.name[e] = key
            if b.startswith("mx") or b == "genmx":
                W.structure("mxtmm" if b == "genmx" else b)
        if any(e in ("rt", "rtprof") for e in entries):
            W.texture(0, W.text), W.texture(1, "pyr")
        if "rttmm" in entries:
            W.texture(0, W.text, W.lfront, [1, 2]), W.texture(1)
        self.ref = {}
        # matrices and tables for the calculations which read them
        for e in entries:
            if e.startswith("read"):
                os.makedirs(os.path.join(dir, e), exist_ok=True)
                W2 = E.World(seed, rays=32)
                W2.base.update(nx=2, ny=2)
                W2.run(e[4:], W2.blank("dict", dict(W2.special(e[4:]), wavelength=W2.lam([1, 3]))), os.path.join(dir, e))
        self.start = None

    def snaps(self):
        W = self.W
        o = {}
        for i, k in enumerate(sorted(self.opts)):
            for p, d in E.snap(dict(self.opts[k]), str(i)).items():
                # the plural name may be resolved into the singular one
                if not p.endswith("[wavelength]") and not p.endswith("%d#keys" % i):
                    o[p] = d
            o["keys%d" % i] = repr(sorted(x for x in self.opts[k] if x not in ("wavelength", "wavelengths")))
            a = self.opts[k]
            o["wl%d" % i] = E.snap(a["wavelengths"] if "wavelengths" in a else a["wavelength"])[""]
        return dict(materials=E.snap([W.front, W.back, W.bulk, W.inc, W.sub, W.shape]), geometry=E.snap(W.geo),
                    layers=E.snap([W.lfront, W.lback, W.lshape, W.lnum, W.llist]), textures=E.snap({str(k): v for k, v in W.textures.items()}),
                    structures=E.snap(W.structs), objects={k + p: d for k, o in W.objs.items() for p, d in E.snap(o).items() if DESCRIBES.match(p)}, options=o,
                    files=dict(all=repr([files(os.path.join(self.dir, e)) for e in READ if os.path.isdir(os.path.join(self.dir, e))])))

    def digest(self):
        """digests of everything there was when it was first seen (attributes may be added to objects)"""
        new = self.snaps()
        if self.start is None:
            self.start = new
        out = {}
        for k, s in self.start.items():
            for p, d in new[k].items():
                # structure objects, textures are made by their first calculation
                if k == "objects" and p not in s:
                    s[p] = d
            bad = sorted(p for p, d in s.items() if new[k].get(p) != d)
            out[k] = "same" if not bad else "changed: " + ", ".join(bad[:5])
        return out

    def run(self, e):
        d = os.path.join(self.dir, e)
        if not e.startswith("read"):
            self.n += 1
            d = os.path.join(self.dir, "x%d" % self.n)
            os.makedirs(d)
        b = e[4:] if e.startswith("read") else e
        return self.W.run(b, self.opts[self.name[e]], d, keep=True, read=e.startswith("read"))


def group(t):
    out = [dict(op="start", error="")]
    # from fresh inputs
    for e in sorted(set(t["hist"])):
        S = Shared(t["seed"], [e], os.path.join(t["dir"], "f" + e), "dict", False)
        out.append(dict(op="fresh", error="", entry=e, res=S.run(e)["res"]))
    S = Shared(t["seed"], t["hist"], os.path.join(t["dir"], "s"), t["form"], t["plural"])
    S.W.held = []
    out.append(dict(op="begin", error="", dig=S.digest()))
    for e in t["hist"]:
        ev = dict(op="calc", error="", entry=e, form=t["form"], plural=t["plural"], seed=t["seed"], hist=t["hist"])
        try:
            ev.update(res=S.run(e)["res"], dig=S.digest())
            ev["held"] = all(E.snap(r) == s for r, s in S.W.held)
        except Exception as ex:
            import traceback
            ev.update(error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-700:])
        out.append(ev)
    return out


def task(t):
    import mat, warnings
    mat.quiet()
    warnings.simplefilter("ignore")
    out = []
    for x in t:
        try:
            out.append(group(x))
        except Exception as ex:
            import traceback
            out.append([dict(op="calc", entry="", error="%s: %s" % (type(ex).__name__, str(ex)[:200]), where=traceback.format_exc()[-700:], hist=x["hist"], seed=x["seed"])])
    return out


def run(ctx):
    rng = random.Random(ctx.seed * 100 + 24)
    q = lambda l: ", ".join('"%s"' % x for x in l)
    small = ["tmm", "rcwa", "mxrttmm", "rt"]
    ctx.model("MCPurity", CFG % (q(ENTRIES if ctx.thorough else small + ["lookup", "mxrcwa"]), "", "none", 3, "FALSE", "Untouched Repeatable AsFresh"))
    for k, d in (("materials", "rt"), ("geometry", "rcwa"), ("layers", "tmm"), ("textures", "rt"), ("structures", "mxrttmm"), ("objects", "rcwa"), ("options", "tmm"), ("files", "mxrttmm")):
        ctx.model("MCPurity", CFG % (q(small), q([d]), k, 3, "FALSE", "Repeatable"), expect_violation="Repeatable")
        ctx.model("MCPurity", CFG % (q(small), q([d]), k, 3, "FALSE", "Untouched"), expect_violation="Untouched")
    pairs = ctx.generate("MCPurity", CFG % (q(ENTRIES), "", "none", 2, "TRUE", "Untouched"), workers=1)
    pairs.sort()
    rng.shuffle(pairs)
    hists = []
    if ctx.thorough:
        hists = [[a, b, a] for a, b in pairs] + [[rng.choice(ENTRIES) for _ in range(6)] for _ in range(300)]
    else:
        fast = [p for p in pairs if p[0] not in SLOW and p[1] not in SLOW]
        slow = [p for p in pairs if p not in fast]
        # every calculation repeated, every one between two others
        hists = [[a, a] for a in ENTRIES] + [[a, b, a] for a, b in fast if a != b][:170] + [[a, b, a] if a not in SLOW else [a, b] for a, b in slow if a != b][:60]
        hists += [[rng.choice([e for e in ENTRIES if e not in SLOW]) for _ in range(6)] for _ in range(25)]
    items = [dict(hist=h, seed=rng.randrange(10**8), form=rng.choice(["dict", "default", "State", "odict"]), plural=rng.random() < .4, dir=ctx.scratch("pure")) for h in hists]
    for i, x in enumerate(items):
        x["dir"] = os.path.join(x["dir"], str(i))
    items.sort(key=lambda x: -sum(e in SLOW for e in x["hist"]))
    n = sum(any(e in SLOW for e in x["hist"]) for x in items)
    tasks = [items[i:i + 1] for i in range(n)] + [items[i:i + 5] for i in range(n, len(items), 5)]
    groups = []
    for r in ctx.pmap(task, tasks, timeout=400):
        groups += [[dict(op="calc", entry="", error=r["error"], where=r.get("where", ""))]] if isinstance(r, dict) else r
    ctx.notes["calculations"] = sum(e["op"] == "calc" for g in groups for e in g)
    ctx.validate("PurityTrace", [e for g in groups for e in g], groups=groups)
