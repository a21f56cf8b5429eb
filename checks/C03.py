"""C03: CRINEX decompression, spec/Crinex.tla and spec/RnxCrx.tla."""
import random
import rnx

CONST = {"G": "GPS", "R": "GLO", "E": "GAL", "C": "BDS", "J": "QZSS", "S": "SBAS", "I": "IRNSS", "M": "MIXED"}


def header(cfg):
    v = "1.0" if cfg["ver"] < 3 else "3.0"
    return [rnx.line("%-20s%-40s" % (v, "COMPACT RINEX FORMAT"), "CRINEX VERS   / TYPE"),
            rnx.line("%-40s%-20s" % ("spec", "02-Jan-21 00:01"), "CRINEX PROG / DATE")] + rnx.obs_header(cfg)


def compare(ctx, want, got, q, clock=True):
    if want == got:
        ctx.cov["comparisons"] += 1
        return
    if not ctx.equal("epochs and flags of the record", [rnx.key(o) for o in want], [rnx.key(o) for o in got], q):
        return
    for a, b in zip(want, got):
        ctx.equal("time scale", a["t"], b["t"], q)
        ctx.equal("observations at %s" % (a["t"],), a["sig"], b["sig"], q)
        if clock:
            lost = a["clk"] is not None and b["clk"] is None
            ctx.equal("receiver clock offset at %s" % (a["t"],), a["clk"], b["clk"], q,
                      sig="clock-not-retained" if lost else None)


def check(ctx):
    cases = ctx.mc("RnxCrx", "RnxCrx_mc.cfg")[:: ctx.scale(4, 1)]
    cases += ctx.mc("RnxCrx", "RnxCrx_mc3.cfg")[:: ctx.scale(2, 1)]
    n_mc = len(cases)
    sim = ctx.sim("RnxCrx", "RnxCrx_sim.cfg", ctx.scale(4000, 40000), 700, heap="1g")
    cases += sim
    # whole files
    reqs = [dict(op="parse", text="\n".join(header(c["cfg"]) + c["lines"]) + "\n") for c in cases]
    nobs = 0
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        if "record" not in r:
            ctx.violation("a compliant CRINEX file is not read: %s" % r, q)
            continue
        want = rnx.obs_record(c["cfg"], c["epochs"])
        nobs += sum(len(o["sig"]) for o in want)
        compare(ctx, want, r["record"], q)
    # streaming: the text produced is RINEX text of the same epochs
    cases = cases[: n_mc : 20] + sim
    reqs = [dict(op="decompress", v3=c["cfg"]["ver"] > 2, constellation=CONST[c["cfg"]["head"]],
                 codes={CONST[k]: v for k, v in c["cfg"]["codes"].items()}, lines=c["lines"]) for c in cases]
    traces, idx = [], []
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        if "out" not in r or any(isinstance(o, dict) for o in r["out"]):
            ctx.violation("a compliant CRINEX stream is not decompressed: %s" % str(r)[-300:], q)
            continue
        traces.append(dict(cfg=c["cfg"], lines=clean(ctx, c["cfg"], r, q), epochs=c["epochs"]))
        idx.append((q, r))
    for b in ctx.accept("ObsTrace", "ObsTrace.cfg", traces, tag="text"):
        q, r = idx[b["bad"]]
        ctx.violation("the text produced is not the RINEX text of what was compressed: line %d, mode %s %s, epoch %d"
                      % (b["line"], b["mode"], b["err"], b["epoch"]), dict(q=q, produced=traces[b["bad"]]["lines"]))
    if not binding(ctx, traces):
        ctx.violation("the trace specification accepts corrupted text", {})
    ctx.sample(sim[-1]["lines"])
    ctx.assumptions += ["values of up to 14 columns and three decimals; epoch flags 0 and 1, events 2 to 5",
                        "orders 1 to 5, the capacity of the historical kernel"]
    return ctx.finish(extra=dict(exhaustive_cases=n_mc, simulated_cases=len(sim), observations=nobs))


def clean(ctx, cfg, r, q):
    """lines of the text; a produced chunk may or may not end with a newline"""
    ls = []
    left = 0
    for src, o in zip(q["lines"], r["out"]):
        if o == "":
            continue
        o = o[:-1] if o.endswith("\n") else o
        chunk = o.split("\n")
        if cfg["ver"] < 3 and len(chunk) > 1 and chunk[-1].strip() == "":
            # recorded finding: a blank line more, and only then
            if left == 0 and o[0] == " " and o[29:32].strip().isdigit() and int(o[29:32]) % 12 == 0 \
                    and len(chunk) == int(o[29:32]) // 12 + 1:
                ctx.violation("extra blank line", dict(q=q), sig="v1-extra-blank-line")
                chunk.pop()
            elif left > 0 and len(chunk) == rows(cfg) + 1 and stops_on_value(cfg, src):
                ctx.violation("extra blank line", dict(q=q), sig="v1-extra-blank-line")
                chunk.pop()
        if cfg["ver"] < 3:
            if left > 0:
                left -= 1
            elif chunk[0][28:29] in "016":
                left = int(chunk[0][29:32])
            else:
                left = int(chunk[0][29:32] or 0)      # lines of the event
        ls += chunk
    return ls


def rows(cfg):
    return (len(next(iter(cfg["codes"].values()))) + 4) // 5


def stops_on_value(cfg, src):
    """the line stops on one of its values, nothing follows"""
    n = len(next(iter(cfg["codes"].values())))
    fs = src.split(" ")
    return len(fs) <= n and fs[-1] != ""


def binding(ctx, traces):
    rng = random.Random(1)
    bad = []
    for t in traces[-60:]:
        if not t["epochs"] or not t["epochs"][0]["sats"]:
            continue
        e = rng.choice([e for e in t["epochs"] if e["sats"]])
        s = rng.choice(e["sats"])
        obs = [o for o in s["obs"] if o["v"]]
        if not obs:
            continue
        o = rng.choice(obs)
        keep = o["v"]
        o["v"] = keep[:-1] + ("1" if keep[-1] != "1" else "2")
        import json
        bad.append(json.loads(json.dumps(t)))
        o["v"] = keep
    n = len(bad)
    got = ctx.accept("ObsTrace", "ObsTrace.cfg", bad, tag="corrupt")
    ctx.cov["corrupted_traces_rejected"] = len(got)
    return len(got) == n
