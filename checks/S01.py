"""S01: sampling analysis, spec/Sampling.tla."""
UNIT = {1: 1, 2: 30_000_000_000, 3: 100_000_000, 4: 15 * 60 * 1_000_000_000, 5: 1_000_003}
BASE = {1: [[2020, 6, 25, 0, 0, 0, 0], "GPST"], 2: [[2015, 6, 30, 23, 59, 30, 0], "UTC"],
        3: [[1999, 12, 31, 23, 59, 59, 500_000_000], "GPST"], 4: [[2022, 2, 28, 12, 0, 0, 0], "GST"],
        5: [[2016, 2, 29, 0, 0, 0, 0], "BDT"]}
KINDS = ["obs", "meteo", "clock", "ionex", "nav"]

def check(ctx):
    cases = ctx.mc("Sampling", "Sampling_mc.cfg")
    n_mc = len(cases)
    for i, c in enumerate(cases):
        c["kind"] = KINDS[i % 5]
    cases += ctx.sim("Sampling", "Sampling_sim.cfg", ctx.scale(8000, 100000), 80)
    reqs = []
    for c in cases:
        u = UNIT[c["unit"]]
        reqs.append(dict(op="sampling", kind=c["kind"], base=BASE[c["base"]], ticks=[t * u for t in c["order"]],
                         tol=c["tol"] * u, interval=u if c["unit"] % 2 else None))
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        if "epochs" not in r:
            ctx.violation("the analysis failed: %s" % r, q)
            continue
        u = UNIT[c["unit"]]
        s = [t * u for t in c["sorted"]]
        ctx.equal("epochs", s, r["epochs"], q)
        ctx.equal("first epoch", s[0] if s else None, r["first"], q)
        ctx.equal("last epoch", s[-1] if s else None, r["last"], q)
        ctx.equal("duration", s[-1] - s[0] if s else None, r["duration"], q)
        ctx.equal("histogram", [[d * u, n] for d, n in c["hist"]], r["hist"], q)
        ctx.equal("steadiness", c["steady"], r["steady"], q)
        ctx.equal("declared interval", q["interval"], r["declared"], q)
        ctx.equal("gaps over the tolerance", [[t * u, d * u] for t, d in c["gaps"]], r["gaps_tol"], q)
        modes = [m * u for m in c["modes"]]
        if not modes:
            ctx.equal("dominant interval", None, r["dominant"], q)
            ctx.equal("default gaps", [], r["gaps"], q)
            ctx.equal("time series", None, r["series"], q)
        elif ctx.equal("dominant interval is a most frequent one", True, r["dominant"] in modes, [q, modes, r["dominant"]]):
            ctx.equal("default gaps", [[t * u, d * u] for t, d in c["gapsby"][modes.index(r["dominant"])]], r["gaps"], q)
            ctx.equal("dominant rate", True, abs(r["rate"] * r["dominant"] / 1e9 - 1) < 1e-9, [q, r["rate"]])
            ctx.equal("time series", list(range(s[0], s[-1] + 1, r["dominant"]))[:2000] if (s[-1]-s[0])//r["dominant"] < 10**6
                      else r["series"], r["series"], q)
    ctx.sample(reqs[-1])
    ctx.assumptions += ["epochs of a record are distinct", "one time scale per record"]
    return ctx.finish(extra=dict(exhaustive_cases=n_mc, simulated_cases=len(cases) - n_mc))
