"""Machinery shared by all checks: running TLC, running tasks against the real code in
worker processes (with a time limit each), fixed-point encoding and the evidence file."""
import os, sys, json, re, time, shutil, subprocess, tempfile, traceback, hashlib, atexit, signal
import multiprocessing as mp
from multiprocessing.connection import wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BAD = 2000000000


def fx(x, scale=1e6):
    """fixed point (1e-6) encoding of a real number; NaN, infinite and absurdly large values -> BAD"""
    try:
        if x is None:
            return BAD
        if isinstance(x, complex) or type(x).__name__.startswith("complex"):
            if abs(x.imag) > 1e-9 * max(1, abs(x)):
                return BAD
            x = x.real
        x = float(x)
    except Exception:
        return BAD
    if x != x or abs(x) * scale > 1.8e9:
        return BAD
    return int(round(x * scale))


def fxl(a, scale=1e6):
    """nested lists of fixed-point numbers from an array-like"""
    import numpy as np
    if hasattr(a, "todense"):
        a = a.todense()
    if hasattr(a, "data") and hasattr(a, "dims"):
        a = a.data
    if isinstance(a, (list, tuple)) or (isinstance(a, np.ndarray) and a.ndim > 0):
        return [fxl(x, scale) for x in a]
    return fx(a, scale)


class Machinery(Exception):
    """failure of the machinery itself (never of the code under test)"""


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        os.chmod(self.tmp, 0o755)
        self._pid = os.getpid()
        atexit.register(self._clean)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.notes = {}
        self.models = []
        self.clauses = {}
        self.exhaustive = True
        self.ncpu = min(8, os.cpu_count() or 4)
        self._n = 0
        self.logdir = os.path.join(VERIF, "evidence", "replay")

    def _clean(self):
        if os.getpid() == self._pid:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def scratch(self, name=""):
        self._n += 1
        d = os.path.join(self.tmp, "%s_%d_%d" % (name, os.getpid(), self._n))
        os.makedirs(d)
        return d

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfg, workers, env=None, timeout=700, extra=(), heap="3g"):
        self._n += 1
        meta = os.path.join(self.tmp, "meta%d" % self._n)
        jtmp = os.path.join(self.tmp, "jtmp%d" % self._n)
        os.makedirs(jtmp)
        cfgp = os.path.join(self.tmp, "%s_%d.cfg" % (module, self._n))
        with open(cfgp, "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + jtmp, "-cp", CP, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", meta, "-deadlock", "-workers", str(workers),
               "-config", cfgp, *extra, os.path.join(SPECS, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=SPECS, env=e), timeout

    @staticmethod
    def _finish(pt, what):
        p, timeout = pt
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Machinery("TLC timed out: " + what)
        return p.returncode, out

    @staticmethod
    def _counts(out):
        m = re.findall(r"^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out, re.M)
        if not m:
            return 0, 0
        a, b = m[-1]
        return int(a.replace(",", "")), int(b.replace(",", ""))

    def model(self, module, cfg, expect_violation=None, timeout=600, min_states=2):
        """exhaustive TLC run of a design specification; any error in it is a failure of the machinery,
        because the design does not depend on the code"""
        rc, out = self._finish(self._tlc(module, cfg, self.ncpu, timeout=timeout), module)
        if expect_violation:
            if ("Invariant %s is violated" % expect_violation) not in out and ("%s is violated" % expect_violation) not in out:
                raise Machinery("%s: expected violation of %s not found\n%s" % (module, expect_violation, out[-3000:]))
            return out
        if rc != 0 or "No error has been found" not in out:
            raise Machinery("%s: design check failed\n%s" % (module, out[-4000:]))
        g, d = self._counts(out)
        if d < min_states:
            raise Machinery("%s: only %d states" % (module, d))
        self.states += d
        self.transitions += g
        self.models.append({"module": module, "distinct_states": d, "transitions": g})
        return out

    def generate(self, module, cfg, timeout=600, tag="BEH", extra=(), workers=1):
        """run TLC on a generator specification; returns the (JSON) behaviours it prints"""
        rc, out = self._finish(self._tlc(module, cfg, workers, timeout=timeout, extra=extra), module)
        res = set()
        for m in re.finditer(r'^<<"%s", (".*")>>\s*$' % tag, out, re.M):
            res.add(json.loads(m.group(1)))
        ok = rc == 0 and "No error has been found" in out
        if "-simulate" in extra:
            ok = rc == 0
        if not ok or not res:
            raise Machinery("%s: generation failed\n%s" % (module, out[-3000:]))
        g, d = self._counts(out)
        self.states += d
        self.transitions += g
        self.models.append({"module": module + " (generator)", "distinct_states": d, "transitions": g, "behaviours": len(res)})
        return [json.loads(x) for x in sorted(res)]

    def validate(self, module, events, cfg="INIT TraceInit\nNEXT TraceNext\nPOSTCONDITION Consumed\n", chunk=None, timeout=700,
                 replay=None, groups=None):
        """check recorded events (a list of JSON objects) against a trace specification. Stateless traces are cut in
        chunks for parallel TLC runs; `groups` (list of lists) are traces which must stay together.
        Returns the list of (event, clause) that failed and registers them as violations."""
        if groups is None:
            nchunk = max(1, min(self.ncpu, (len(events) + 7) // 8)) if chunk is None else max(1, -(-len(events) // chunk))
            # round-robin, so that expensive events are spread evenly
            parts = [events[i::nchunk] for i in range(nchunk)]
        else:
            nchunk = max(1, min(self.ncpu, len(groups)))
            parts = [[e for g in groups[i::nchunk] for e in g] for i in range(nchunk)]
        parts = [p for p in parts if p]
        runs = []
        fails = []
        procs = []
        for p in parts:
            self._n += 1
            f = os.path.join(self.tmp, "trace%d.ndjson" % self._n)
            with open(f, "w") as fh:
                for e in p:
                    fh.write(json.dumps(_clean_json(e)) + "\n")
            runs.append((p, f))
        i = 0
        done = []
        while i < len(runs) or procs:
            while i < len(runs) and len(procs) < self.ncpu:
                p, f = runs[i]
                procs.append((p, f, self._tlc(module, cfg, 1, env={"TRACE": f}, timeout=timeout, heap="2500m")))
                i += 1
            p, f, pt = procs.pop(0)
            rc, out = self._finish(pt, module)
            if rc != 0 or "No error has been found" not in out:
                # TLC is deterministic: a second attempt only helps against trouble of the machine
                self.notes.setdefault("tlc_retries", []).append(out[-3000:])
                rc, out = self._finish(self._tlc(module, cfg, 1, env={"TRACE": f}, timeout=timeout, heap="2500m"), module)
            done.append((p, f, rc, out))
        for p, f, rc, out in done:
            if rc != 0 or "No error has been found" not in out:
                # recorded values the specification cannot even evaluate (overflow, wrong shape) after a state: that event
                # does not conform. Anything else is trouble of the machinery.
                ls = re.findall(r"^(?:/\\ )?l = (\d+)\s*$", out, re.M)
                if "when TLC was evaluating" in out and "StackOverflow" not in out and "OutOfMemory" not in out and ls:
                    k = int(ls[-1])
                    if 1 <= k <= len(p):
                        self.notes.setdefault("not_evaluable", []).append(out[-1500:])
                        self.violation("recorded values can be evaluated by the specification", p[k - 1], module)
                        self.traces += k
                        continue
                raise Machinery("%s: trace run failed\n%s" % (module, out[:200] + "\n...\n" + out[-4000:]))
            g, d = self._counts(out)
            if d != len(p) + 1:
                raise Machinery("%s: %d of %d events consumed\n%s" % (module, d - 1, len(p), out[-3000:]))
            self.states += d
            self.transitions += g
            self.traces += len(p)
            flat = re.sub(r"\s*\n\s*", " ", "\n".join(l for l in out.splitlines()))
            for m in re.finditer(r'<<\s*"FAIL",\s*(\d+),\s*"([^"]*)"\s*>>', flat):
                fails.append((p[int(m.group(1)) - 1], m.group(2)))
            for m in re.finditer(r'<<\s*"SEEN",\s*"([^"]*)",\s*(\d+)\s*>>', flat):
                self.clauses[m.group(1)] = self.clauses.get(m.group(1), 0) + int(m.group(2))
        for e, c in fails:
            self.violation(c, e, module)
        if events and len(self.samples) < 6:
            self.samples.append(_short(events[len(events) // 2]))
        return fails

    # ------------------------------------------------------------ violations
    def violation(self, clause, event, module=""):
        if clause.startswith("KNOWN:"):
            self.known.append((clause[6:], event))
            return
        self.violations.append((clause, event, module))

    # ---------------------------------------------------------- real code
    def pmap(self, fn, tasks, timeout=240, nproc=None):
        """run fn(task) for every task in worker processes; a task that raises gives {"error": ...}, one that does not end
        in time gives {"error": "timeout"}"""
        tasks = list(tasks)
        nproc = min(nproc or self.ncpu, max(1, len(tasks)))
        results = [None] * len(tasks)
        ctx = mp.get_context("fork")

        def worker(conn):
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            while True:
                try:
                    i = conn.recv()
                except EOFError:
                    os._exit(0)
                if i is None:
                    os._exit(0)
                try:
                    r = fn(tasks[i])
                except BaseException as ex:
                    r = {"error": "%s: %s" % (type(ex).__name__, str(ex)[:300]),
                         "where": traceback.format_exc()[-1500:]}
                conn.send((i, r))

        def spawn():
            a, b = ctx.Pipe()
            p = ctx.Process(target=worker, args=(b,))
            p.start()
            b.close()
            return [p, a, None, 0]

        ws = [spawn() for _ in range(nproc)]
        nxt = 0
        pending = len(tasks)
        while pending:
            for w in ws:
                if w[2] is None and nxt < len(tasks):
                    w[1].send(nxt)
                    w[2], w[3] = nxt, time.time()
                    nxt += 1
            ready = wait([w[1] for w in ws if w[2] is not None], timeout=1)
            for k, w in enumerate(ws):
                if w[2] is None:
                    continue
                if w[1] in ready:
                    try:
                        i, r = w[1].recv()
                        results[i] = r
                    except (EOFError, OSError):
                        results[w[2]] = {"error": "worker died"}
                        ws[k] = spawn()
                        pending -= 1
                        continue
                    w[2] = None
                    pending -= 1
                elif time.time() - w[3] > timeout:
                    w[0].kill()
                    w[0].join()
                    results[w[2]] = {"error": "timeout"}
                    pending -= 1
                    ws[k] = spawn()
        for w in ws:
            try:
                w[1].send(None)
            except Exception:
                pass
        for w in ws:
            w[0].join(5)
            if w[0].is_alive():
                w[0].kill()
        return results

    # ------------------------------------------------------------ evidence
    def finish(self, level="model_checking"):
        os.makedirs(self.logdir, exist_ok=True)
        code = 0
        shown = {}
        vio = []
        kf = {}
        for what, e in self.known:
            kf[what] = kf.get(what, 0) + 1
        for what in sorted(kf):
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (self.pid, what, kf[what]))
        for clause, e, module in self.violations:
            n = shown.get(clause, 0)
            shown[clause] = n + 1
            if n >= 3:
                continue
            h = hashlib.sha1(json.dumps([clause, e], sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(self.logdir, "%s_%s.json" % (self.pid, h))
            with open(path, "w") as f:
                json.dump({"property": self.pid, "clause": clause, "module": module, "event": e}, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("   clause %s violated by %s" % (clause, _short(e)))
            vio.append({"clause": clause, "replay": path})
            code = 1
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "samples": [s if isinstance(s, str) else json.dumps(s) for s in self.samples][:6],
                           "exhaustive": self.exhaustive, "models": self.models, "notes": self.notes,
                           "clauses": self.clauses},
              "assumptions": self.notes.get("assumptions", []),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s: %d states, %d impl events, %d violations, %.1f s" % (
            self.pid, self.tier, self.states, self.traces, len(self.violations), time.time() - self.t0))
        return code


def _clean_json(e):
    if isinstance(e, dict):
        return {str(k): _clean_json(v) for k, v in e.items()}
    if isinstance(e, (list, tuple)):
        return [_clean_json(v) for v in e]
    if e is None:
        return "None"
    if isinstance(e, float):
        return "%r" % e
    return e


def _short(e):
    s = json.dumps(e, default=str)
    return s if len(s) < 600 else s[:600] + "..."
