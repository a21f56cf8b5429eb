"""C01: numerical kernel, spec/NumDiff.tla."""
def check(ctx):
    cases = ctx.mc("NumDiff", "NumDiff_mc.cfg")
    n_mc = len(cases)
    cases += ctx.sim("NumDiff", "NumDiff_sim.cfg", ctx.scale(8000, 200000), 60)
    reqs = []
    for c in cases:
        s = c["scale"]
        c["samples"] = [o["v"] * s for o in c["ops"]]
        c["exp"] = [v * s for v in c["coded"]]
        reqs.append(dict(op="numdiff", m=c["m"], coded=c["exp"],
                         ops=[dict(o, v=o["v"] * s) for o in c["ops"]]))
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        if "coded" not in r:
            ctx.violation("the kernel failed: %s" % r, q)
            continue
        ctx.equal("coded values are not the finite differences", c["exp"], r["coded"], q)
        ctx.equal("decoded values are not the samples", c["samples"], r["decoded"], q)
    ctx.sample(reqs[0]); ctx.sample(reqs[-1])
    ctx.assumptions += ["sample magnitude below 2^53", "order 1..capacity, capacity <= 6"]
    return ctx.finish(extra=dict(exhaustive_cases=n_mc, simulated_cases=len(cases) - n_mc))
