"""Runs requests and ends them at every file operation (C09); started by c09.py with killat.so preloaded.
Arguments: input json (dict meth, scenarios, dir, every, seed), output json (list of lists of events)."""
import os, sys, json, shutil, signal, time, random, logging, warnings, traceback, ctypes, select
warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)
import numpy as np
import storelib as sl
import mat

SO = ctypes.CDLL(os.environ["LD_PRELOAD"])
ABS = {"TMM": "mat", "ideal": "mat", "RCWA": "mat", "RT_Fresnel": "mat", "RT_TMM": "rttmm", "rts": "rts"}


def child(fn, limit=90):
    """fn() in a forked process: ("ok", value), ("error", text), ("killed", None) or ("timeout", None)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            v = fn()
            m = json.dumps(dict(v=v))
        except BaseException as ex:
            m = json.dumps(dict(e="%s: %s" % (type(ex).__name__, str(ex)[:200]), w=traceback.format_exc()[-900:]))
        m = m.encode()
        while m:
            n = os.write(w, m)
            m = m[n:]
        os._exit(0)
    os.close(w)
    data, t0 = b"", time.time()
    while True:
        ok, _, _ = select.select([r], [], [], 0.5)
        if ok:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        elif time.time() - t0 > limit:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return "timeout", None
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 137:
        return "killed", None
    if not data:
        return "error", "process died (%d)" % st
    d = json.loads(data)
    return ("error", d["e"]) if "e" in d else ("ok", d["v"])


def main(task):
    sl.SMALL = True
    mat.quiet()
    meth, base, seed = task["meth"], task["dir"], task["seed"]
    m = ABS[meth]
    det = not meth.startswith("RT_")
    ref = sl.Ref(meth, os.path.join(base, "ref"))
    names = sl.NAMES["main"]
    out, known = [], {}
    try:        # so that nothing has to be compiled in the many forked processes
        w = dict(p="main", v=1, prof=meth not in ("ideal", "RT_Fresnel"), ow=False)
        for q in (w, dict(w, prof=False, ow=True)):
            sl.process(meth, q, os.path.join(base, "warm"), "p", names)
            if meth != "rts":
                sl.rat(meth, q, os.path.join(base, "warm"), "p", names)
    except Exception:
        pass
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()
    for sn, sc in enumerate(task["scenarios"]):
        ev = []
        pre, req, mode = sc["pre"], sc["req"], sc["mode"]
        root = os.path.join(base, "s%d" % sn)
        live, tmpl = os.path.join(root, "live"), os.path.join(root, "template")
        places = lambda d: {(1, 1): os.path.join(d, "p1"), (1, 2): os.path.join(d, "p2"), (2, 1): os.path.join(d, "other", "p1")}

        def seeded(fn):
            np.random.seed(seed % 2**31)
            random.seed(seed)
            return fn()

        def request(r, d=live, nm=names, proj="p1"):
            return seeded(lambda: sl.process(meth, r, d, proj, nm) and None)

        def answer(r, d=live):
            return seeded(lambda: sl.rat(meth, r, d, "p1", names)) if meth != "rts" else []

        def see(d, old):
            return sl.snapshot(ref, places(d), old, known)[0]

        def repeat(r):
            """the repeated request, what it left behind and what the results calculated from it are"""
            o = dict(outcome="ok", detail="", files=[], rat=[])
            try:
                request(r)
                try:
                    o["files"] = see(live, old)
                except Exception as ex:
                    return dict(o, outcome="unreadable", detail="%s: %s" % (type(ex).__name__, str(ex)[:200]))
                o["rat"] = answer(r)
            except Exception as ex:
                o.update(outcome="error", detail="%s: %s" % (type(ex).__name__, str(ex)[:200]))
                # only places and surfaces the request has nothing to do with can be looked at
                for f in os.listdir(os.path.join(live, "p1")) if os.path.isdir(os.path.join(live, "p1")) else []:
                    if not f.startswith(("c", "d")):
                        os.remove(os.path.join(live, "p1", f))
                o["files"] = see(live, old)
            return o
        ident = dict(meth=meth, m=m, pre=pre, req=req, mode=mode)
        try:
            os.makedirs(tmpl)
            if sc["first"]:
                request(pre, tmpl)
            # other surfaces, another project, another location
            v = dict(p="main", v=2, prof=False, ow=False)
            request(v, tmpl, ("c", "d"))
            request(v, tmpl, names, "p2")
            request(v, os.path.join(tmpl, "other"))
            _, old = sl.snapshot(ref, places(tmpl), {}, known)

            def fresh():
                shutil.rmtree(live, ignore_errors=True)
                shutil.copytree(tmpl, live)
            # uninterrupted
            fresh()
            log = os.path.join(root, "log")

            def whole():
                fd = os.open(log, os.O_CREAT | os.O_WRONLY | os.O_APPEND)
                SO.killat_arm(live.encode(), ctypes.c_long(-1), 0, fd)
                request(req)
                return SO.killat_count()
            k, n = child(whole)
            if k != "ok":
                raise RuntimeError("uninterrupted request: %s" % (n or k))
            kinds = [x.split() for x in open(log)]
            k, want = child(lambda: answer(req))
            if k != "ok":
                raise RuntimeError("uninterrupted calculation: %s" % (want or k))
            files = see(live, old)
            ev.append(dict(op="whole", error="", ops=n, files=files, first=sc["first"], **ident))
            points = [(i + 1, h) for i in range(n) for h in ((0, 1) if kinds[i][0] == "write" and int(kinds[i][1]) > 1 else (0,))]
            rng = random.Random(seed + sn)
            if len(points) > task["points"]:     # all operations which are not writes, and a sample of the writes
                keep = [p for p in points if kinds[p[0] - 1][0] != "write"]
                rest = [p for p in points if kinds[p[0] - 1][0] == "write"]
                points = sorted(keep + rng.sample(rest, min(len(rest), max(8, task["points"] - len(keep)))))
            r2 = dict(req, ow=False) if mode == "cont" else req
            for at, h in points:
                fresh()
                e = dict(op="crash", error="", at=at, half=h, kind=kinds[at - 1][0], first=sc["first"], **ident)

                def killed(i=at, hh=h, r=req):
                    SO.killat_arm(live.encode(), ctypes.c_long(i), hh, -1)
                    request(r)
                k, v = child(killed)
                e["kills"] = 1
                if task["again"] and rng.random() < 0.5:     # the repetition is interrupted too
                    k, v = child(lambda: killed(rng.randint(1, n), rng.randint(0, 1), r2))
                    e["kills"] = 2
                k, v = child(lambda: repeat(r2))
                e["outcome"], e["detail"], e["files"], e["rat"] = k, "", [], True
                if k == "ok":
                    e["outcome"], e["detail"], e["files"] = v["outcome"], v["detail"], v["files"]
                    if det and mode == "same" and e["outcome"] == "ok" and meth != "rts":
                        e["rat"] = sl.same(v["rat"], want)
                ev.append(e)
        except Exception as ex:
            ev.append(dict(op="whole", error="%s: %s" % (type(ex).__name__, str(ex)[:300]), where=traceback.format_exc()[-900:], first=sc["first"], **ident))
        shutil.rmtree(root, ignore_errors=True)
        out.append(ev)
    return out


if __name__ == "__main__":
    t = json.load(open(sys.argv[1]))
    r = main(t)
    json.dump(r, open(sys.argv[2] + ".tmp", "w"))
    os.rename(sys.argv[2] + ".tmp", sys.argv[2])
