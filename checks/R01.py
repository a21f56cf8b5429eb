"""R01: epochs survive whatever surrounds them, and truncation; spec/RnxObs.tla."""
import random
import rnx


def lost(c):
    """epochs that lost their last line"""
    d = c["damaged"]
    return [x[1] for x in (d.values() if isinstance(d, dict) else d) if x and x[0] == "lost"]


def strip(o):       # the receiver clock is O01's business
    return {k: v for k, v in o.items() if k != "clk"}


def cuts(ctx, rng, c, exhaustive):
    n = len(c["lines"])
    if exhaustive:
        return sorted({n, max(0, n - 1), rng.randint(0, n)})
    if n <= 24 or not ctx.quick:
        return list(range(n + 1))
    return sorted({n} | set(c["ends"]) | {e - 1 for e in c["ends"]} | {rng.randint(0, n) for _ in range(4)})


def check(ctx):
    rng = random.Random(ctx.seed)
    mc = ctx.mc("RnxObs", "RnxObs_mc.cfg")
    if ctx.quick:
        mc = [c for i, c in enumerate(mc) if i % 4 == 0 or len(c["damaged"])]
    sim = ctx.sim("RnxObs", "RnxObs_sim.cfg", ctx.scale(1200, 16000), 220, heap="1g")
    reqs, meta = [], []
    for i, c in enumerate(mc + sim):
        head, n = rnx.obs_header(c["cfg"]), len(c["lines"])
        texts, marks = [], []
        starts = {0} | set(c["ends"])
        for k in cuts(ctx, rng, c, i < len(mc)):
            t = "\n".join(head + c["lines"][:k])
            for end in (["", "\n"] if k == n or rng.random() < 0.2 else [rng.choice(["", "\n"])]):
                texts.append(t + end)
                marks.append((k, False))
            if k < n and len(c["lines"][k]) and not c["lines"][k].endswith("COMMENT"):
                # or anywhere within the next line: most often, within one that starts an epoch
                width = len(c["lines"][k])
                for j in {rng.randint(1, width) for _ in range(8 if k in starts else 1)}:
                    texts.append(t + "\n" + c["lines"][k][:j])
                    marks.append((k + (j == width), j < width))
        reqs.append(dict(op="parse_many", texts=texts))
        meta.append((c, marks))
    nfiles = 0
    for (c, marks), q, r in zip(meta, reqs, ctx.run(reqs)):
        if "many" not in r:
            ctx.violation("reading failed: %s" % r, dict(texts=q["texts"]))
            continue
        exp = [(end, strip(rnx.obs_epoch(c["cfg"], e))) for e, end in zip(c["epochs"], c["ends"])]
        partial0 = [strip(rnx.obs_epoch(c["cfg"], e)) for e in lost(c)]
        for (k, within), t, got in zip(marks, q["texts"], r["many"]):
            nfiles += 1
            ctx.cov["comparisons"] += 1
            if not isinstance(got, list):
                ctx.violation("a file cut after %d lines is not read: %s" % (k, got), dict(text=t))
                continue
            want = sorted((o for end, o in exp if end <= k), key=rnx.key)
            # an epoch that lost its last line, and the one the file is cut in, may be kept in part
            partial = partial0 + [o for end, o in exp if end > k][:1]
            pk = [rnx.key(o) for o in partial]
            wk = [rnx.key(o) for o in want]
            obs = [strip(o) for o in got if rnx.key(o) in wk or rnx.key(o) not in pk]
            if want != obs:
                what = "epochs of a file cut after %d lines of %d" % (k, len(c["lines"])) \
                    if wk != [rnx.key(o) for o in obs] else "content of an epoch"
                ctx.violation(what, dict(expected=[w for w in want if w not in obs][:3],
                                         observed=[o for o in obs if o not in want][:3], text=t))
            # but never with something that was not written
            for w in partial:
                for o in got:
                    if rnx.key(o) == rnx.key(w) and w not in want:
                        bad = [s for s in o["sig"] if s not in w["sig"]]
                        # but for the value the file is cut in
                        if len(bad) > within:
                            ctx.violation("an incomplete epoch holds what was not written",
                                          dict(epoch=w["t"], observed=bad[:4], text=t))
    ctx.sample(sim[-1]["lines"])
    ctx.assumptions += ["an epoch that lost its last line, and the epoch a file is cut in, may be kept in part",
                        "epochs of a file are distinct"]
    return ctx.finish(extra=dict(exhaustive_cases=len(mc), simulated_cases=len(sim), files=nfiles))
