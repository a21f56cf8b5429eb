"""C02: text kernel, spec/TextDiff.tla."""
def check(ctx):
    cases = ctx.mc("TextDiff", "TextDiff_mc.cfg")
    n_mc = len(cases)
    cases += ctx.sim("TextDiff", "TextDiff_sim.cfg", ctx.scale(2400, 60000), 60)
    reqs = []
    for c in cases:
        reqs.append(dict(op="textdiff", coded=["".join(x) for x in c["coded"]],
                         ops=[dict(k=o["k"], v="".join(o["v"])) for o in c["ops"]]))
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        if "coded" not in r:
            ctx.violation("the kernel failed: %s" % r, q)
            continue
        init = [o["k"] == "init" for o in q["ops"]]
        # no-change marks at the end of a coded line carry nothing
        t = lambda xs: [x if i else x.rstrip(" ") for x, i in zip(xs, init)]
        ctx.equal("coded text is not the text difference", t(q["coded"]), t(r["coded"]), q)
        ctx.equal("decoded text", ["".join(x) for x in c["decoded"]], r["decoded"], q)
    ctx.sample(reqs[0]); ctx.sample(reqs[-1])
    ctx.assumptions += ["ASCII lines without '&'"]
    return ctx.finish(extra=dict(exhaustive_cases=n_mc, simulated_cases=len(cases) - n_mc))
