"""O01: reading observation files, spec/RnxObs.tla."""
import rnx

def check(ctx):
    cases = ctx.mc("RnxObs", "RnxObs_mc.cfg")
    n_mc = len(cases)
    cases = [c for c in cases if not c["damaged"]]
    n_sim = ctx.scale(1600, 20000)
    sim = ctx.sim("RnxObs", "RnxObs_clean.cfg", n_sim, 220, heap="1g")
    cases += sim
    reqs = []
    for c in cases:
        reqs.append(dict(op="parse", text="\n".join(rnx.obs_header(c["cfg"]) + c["lines"]) + "\n"))
    nobs = 0
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        if "record" not in r:
            ctx.violation("a well formed file is not read: %s" % r, q)
            continue
        want = rnx.obs_record(c["cfg"], c["epochs"])
        got = r["record"]
        nobs += sum(len(o["sig"]) for o in want)
        if want == got:
            ctx.cov["comparisons"] += 1
            continue
        # localise
        if not ctx.equal("epochs and flags of the record", [rnx.key(o) for o in want], [rnx.key(o) for o in got], q):
            continue
        for a, b in zip(want, got):
            ctx.equal("time scale", a["t"], b["t"], q)
            ctx.equal("observations at %s" % (a["t"],), a["sig"], b["sig"], q)
            lost = a["clk"] is not None and b["clk"] is None
            ctx.equal("receiver clock offset at %s" % (a["t"],), a["clk"], b["clk"], q,
                      sig="clock-not-retained" if lost else None)
    ctx.sample(sim[-1])
    ctx.assumptions += ["values of up to 14 columns and three decimals; LLI 0..7; SSI 0..9",
                        "one time scale per file"]
    return ctx.finish(extra=dict(exhaustive_cases=n_mc, simulated_cases=len(sim), observations=nobs))
