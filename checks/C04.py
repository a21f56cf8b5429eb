"""C04: writing CRINEX and reading it back; spec/Crinex.tla decodes what the crate writes."""
import json, random
import rnx
from checks import C03


def check(ctx):
    rng = random.Random(ctx.seed)
    mc = [c for c in ctx.mc("RnxCrx", "RnxCrx_mc3.cfg") if dataset(c)][:: ctx.scale(2, 1)]
    mc += [c for c in ctx.mc("RnxCrx", "RnxCrx_mc.cfg") if dataset(c)][:: ctx.scale(6, 1)]
    sim = ctx.sim("RnxCrx", "RnxCrx_data.cfg", ctx.scale(3200, 40000), 700, heap="1g")
    cases = mc + sim
    traces, idx = [], []
    # an in-memory data set is compressed; so is a plain file that was read
    reqs = [dict(op="roundtrip", conv="crnx", data=rnx.data(c["cfg"], c["epochs"], rng)) for c in cases]
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        if "text" not in r:
            ctx.violation("writing CRINEX failed: %s" % r, q)
            continue
        d = dict(data=q["data"], text=r["text"])
        ls = r["text"].split("\n")
        if not (ls[0][60:].strip() == "CRINEX VERS   / TYPE" and ls[0][:20].strip() == ("1.0" if c["cfg"]["ver"] < 3 else "3.0")
                and ls[0][20:60].strip() == "COMPACT RINEX FORMAT" and ls[1][60:].strip() == "CRINEX PROG / DATE"):
            ctx.violation("the file does not start with the CRINEX header", d)
        traces.append(dict(cfg=c["cfg"], lines=rnx.body(r["text"]), epochs=c["epochs"]))
        idx.append(d)
        if "record" not in r["back"]:
            ctx.violation("what was written is not read back: %s" % r["back"], d)
            continue
        want = rnx.sorted_sigs(rnx.obs_record(c["cfg"], c["epochs"]))
        C03.compare(ctx, want, rnx.sorted_sigs(r["back"]["record"]), d, clock=False)
    # CRINEX file -> record -> plain RINEX file, and -> CRINEX file again
    part = sim[:: 2]
    for conv, mod, out in (("rnx", "ObsTrace", []), ("crnx", "CrxTrace", [])):
        reqs = [dict(op="roundtrip", conv=conv, text="\n".join(C03.header(c["cfg"]) + c["lines"]) + "\n") for c in part]
        for c, q, r in zip(part, reqs, ctx.run(reqs)):
            if "text" not in r:
                ctx.violation("conversion %s failed: %s" % (conv, r), q)
                continue
            if ("COMPACT RINEX" in r["text"]) != (conv == "crnx"):
                ctx.violation("conversion %s: wrong kind of file" % conv, q)
            es = [dict(e, clk="") for e in c["epochs"]]        # see O01: clock-not-retained
            out.append((dict(cfg=c["cfg"], lines=rnx.body(r["text"]), epochs=es), dict(source=q, text=r["text"])))
        for b in ctx.accept(mod, mod + ".cfg", [t for t, _ in out], tag="conv_" + conv):
            ctx.violation("conversion %s: the text does not hold the data: line %d, mode %s %s, epoch %d"
                          % (conv, b["line"], b["mode"], b["err"], b["epoch"]), out[b["bad"]][1])
    for b in ctx.accept("CrxTrace", "CrxTrace.cfg", traces, tag="written"):
        ctx.violation("the text written is not a CRINEX stream of the data: line %d, mode %s %s, epoch %d"
                      % (b["line"], b["mode"], b["err"], b["epoch"]), idx[b["bad"]])
    bad = corrupted(traces[-60:])
    got = ctx.accept("CrxTrace", "CrxTrace.cfg", bad, tag="corrupt")
    ctx.cov["corrupted_traces_rejected"] = len(got)
    if len(got) != len(bad):
        ctx.violation("the trace specification accepts corrupted streams", {})
    ctx.sample(traces[-1]["lines"])
    ctx.assumptions += ["values with three decimals that fit 14 columns; V3 clock offsets of 12 decimals, V1 of 9",
                        "every satellite of the data set has at least one observation",
                        "RINEX 2 data declares the same observables for every constellation"]
    return ctx.finish(extra=dict(exhaustive_cases=len(mc), simulated_cases=len(sim)))


def dataset(c):
    return all(any(o["v"] for o in s["obs"]) for e in c["epochs"] for s in e["sats"])


def corrupted(traces):
    """one digit of the expectation changed"""
    rng = random.Random(1)
    bad = []
    for t in traces:
        t = json.loads(json.dumps(t))
        obs = [o for e in t["epochs"] for s in e["sats"] for o in s["obs"] if o["v"]]
        if obs:
            o = rng.choice(obs)
            o["v"] = o["v"][:-1] + ("1" if o["v"][-1] != "1" else "2")
            bad.append(t)
    return bad
