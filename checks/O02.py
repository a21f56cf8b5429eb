"""O02: writing observation files; data sets and layout from spec/RnxObs.tla and spec/ObsText.tla."""
import random
import rnx


def check(ctx):
    rng = random.Random(ctx.seed)
    mc = [c for c in ctx.mc("RnxObs", "RnxObs_mc.cfg") if not c["damaged"]]
    mc = [c for i, c in enumerate(mc) if all(o["v"] for e in c["epochs"] for s in e["sats"] for o in s["obs"][:1])]
    mc = mc[:: ctx.scale(8, 2)]
    sim = ctx.sim("RnxObs", "RnxObs_data.cfg", ctx.scale(1600, 20000), 220, heap="1g")
    cases = mc + sim
    reqs = [dict(op="roundtrip", data=rnx.data(c["cfg"], c["epochs"], rng)) for c in cases]
    traces, idx = [], []
    for i, (c, q, r) in enumerate(zip(cases, reqs, ctx.run(reqs))):
        if "text" not in r:
            ctx.violation("writing failed: %s" % r, q)
            continue
        traces.append(dict(cfg=c["cfg"], lines=rnx.body(r["text"]), epochs=[written(c["cfg"], e) for e in c["epochs"]]))
        idx.append((c, q, r))
        back = r["back"]
        if "record" not in back:
            ctx.violation("what was written is not read back: %s" % back, dict(q, text=r["text"]))
            continue
        d = dict(data=q, text=r["text"])
        want = rnx.sorted_sigs(rnx.obs_record(c["cfg"], c["epochs"]))
        got = rnx.sorted_sigs(back["record"])
        if not ctx.equal("epochs and flags read back", [rnx.key(o) for o in want], [rnx.key(o) for o in got], d):
            continue
        for a, b in zip(want, got):
            ctx.equal("time scale read back", a["t"], b["t"], d)
            ctx.equal("observations read back", a["sig"], b["sig"], d)
            if c["cfg"]["ver"] > 2:
                ctx.equal("receiver clock offset read back", a["clk"], b["clk"], d,
                          sig="clock-not-retained" if b["clk"] is None else None)
    for b in ctx.accept("ObsTrace", "ObsTrace.cfg", traces, tag="written"):
        c, q, r = idx[b["bad"]]
        ctx.violation("the text written does not hold the data in its columns: line %d, mode %s %s, epoch %d"
                      % (b["line"], b["mode"], b["err"], b["epoch"]), dict(data=q, text=r["text"]))
    if not binding(ctx, traces):
        ctx.violation("the trace specification accepts corrupted text", {})
    ctx.sample(traces[-1]["lines"])
    ctx.assumptions += ["values with three decimals that fit 14 columns", "every satellite has at least one observation",
                        "RINEX 2 data declares the same observables for every constellation"]
    return ctx.finish(extra=dict(exhaustive_cases=len(mc), simulated_cases=len(sim)))


def written(cfg, e):
    """RINEX 2 writing leaves the clock offset out; RINEX 3 has twelve decimals"""
    e = dict(e)
    if e["clk"]:
        e["clk"] = "" if cfg["ver"] < 3 else "%.12f" % float(e["clk"])
    return e


def binding(ctx, traces):
    """one corrupted character per file must be noticed"""
    rng = random.Random(1)
    bad = []
    for t in traces[-60:]:
        ls = [list(l) for l in t["lines"]]
        pos = [(i, j) for i, l in enumerate(ls) for j, ch in enumerate(l) if ch.isdigit()]
        if not pos:
            continue
        i, j = rng.choice(pos)
        ls[i][j] = "123456789"[int(ls[i][j]) % 9] if ls[i][j] != "9" else "1"
        bad.append(dict(t, lines=["".join(l) for l in ls]))
    n = len(bad)
    got = ctx.accept("ObsTrace", "ObsTrace.cfg", bad, tag="corrupt")
    ctx.cov["corrupted_traces_rejected"] = len(got)
    return len(got) == n
