"""C03: Beer-Lambert absorption and depth profiles in the bulk. The behaviours of the RayStack specification (every outcome script that a ray can
distinguish, every start) are replayed into the real ray tracer and the recorded results checked by RayTrace."""
import random
import raylib


def run(ctx):
    rng = random.Random(ctx.seed * 1000 + 3)
    beh = raylib.behaviours(ctx, 4 if not ctx.thorough else 5, ("R", "T", "A1", "A2", "A3") if ctx.thorough else ("R", "T", "A1", "A2"))
    ctx.model("MCRay", raylib.CFG % (4, '"R", "T", "A1", "A2", "A3"', "Trs3", 60000, "FALSE"))
    groups = {}
    for b in beh:
        if b["N"] == 1:
            continue
        groups.setdefault((b["N"], b["m0"], b["d0"]), []).append(b)
    variants = [dict(pol="s"), dict(pol="u", nx=2, nr=4), dict(pol="p", randomize=1), dict(pol="p", normal=1)]
    tasks = []
    for (N, m0, d0), items in sorted(groups.items()):
        rng.shuffle(items)
        vs = variants if ctx.thorough else variants
        for vi, v in enumerate(vs):
            # quick: every behaviour under one or two variants; thorough: under all of them
            part = items if (ctx.thorough or len(items) < 60) else items[vi::len(vs)] + items[(vi + 1) % len(vs)::len(vs)]
            if v.get("matched"):
                part = part[:40]
            for k in range(0, len(part), 60):
                tasks.append(dict(N=N, m0=m0, d0=d0, items=part[k:k + 60], variant=v, seed=rng.randrange(10**9),
                                  savedir=ctx.scratch("rt"), thr=[0.05, 0.02][vi % 2], profiles=True))
    res = ctx.pmap(raylib.run_batch_safe, tasks, timeout=400)
    events = []
    for t, r in zip(tasks, res):
        if isinstance(r, dict):
            r = [dict(error=r["error"], where=r.get("where", ""), N=t["N"], m0=t["m0"], d0=t["d0"], variant=t["variant"])]
        events += r
    ctx.notes["behaviours"] = len(beh)
    ctx.validate("RayTrace", events)
