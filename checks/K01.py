"""K01: clock files, spec/ClkText.tla (writer and reader of the body)."""
import rnx

TS = {"GPS": "GPST", "GAL": "GST", "UTC": "UTC", "TAI": "TAI", "BDT": "BDT", "GLO": "UTC", "QZS": "QZSST", "": "GPST"}


def header(cfg):
    w = 60 if cfg["old"] else 65
    lab = lambda s, l: s[:w].ljust(w) + l
    if cfg["old"]:
        first = "%9s%11s%-20s%-20s" % ("3.00" if cfg["zp"] else "2.00", "", "C", "")
    else:
        first = "%-21s%-21s%-20s" % ("3.04", "C", "")
    out = [lab(first, "RINEX VERSION / TYPE"), lab("%-20s%-20s%-20s" % ("spec", "verif", "20200101 000000 UTC"), "PGM / RUN BY / DATE")]
    if cfg["ts"]:
        out.append(lab("   " + cfg["ts"], "TIME SYSTEM ID"))
    out += [lab("     5    AR    AS    CR    DR    MS", "# / TYPES OF DATA"), lab("", "END OF HEADER")]
    return out


def profile(cfg, e):
    t = [[e["y"], e["mo"], e["d"], e["h"], e["mi"], e["s"], e["us"] * 1000], TS[cfg["ts"]]]
    v = [float(x) for x in e["vals"]]
    return dict(t=t, type=e["type"], kind="sv" if e["type"] in ("AS", "MS") else "station", name=e["name"], v=v + [None] * (6 - len(v)))


def order(rs):
    return sorted(rs, key=lambda r: (r["t"], r["type"], r["name"]))


def check(ctx):
    mc = ctx.mc("RnxClk", "RnxClk_mc.cfg")
    sim = ctx.sim("RnxClk", "RnxClk_sim.cfg", ctx.scale(8000, 120000), 90, heap="1g")
    cases = mc + sim
    reqs = [dict(op="parse", browse=True, text="\n".join(header(c["cfg"]) + c["lines"]) + "\n") for c in cases]
    n = 0
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        if "record" not in r:
            ctx.violation("a well formed file is not read: %s" % r, q)
            continue
        want = order([profile(c["cfg"], e) for e in c["recs"]])
        n += len(want)
        ctx.equal("clock profiles", want, order(r["record"]), q)
        rnx.browsed(ctx, "clock", r, q, [w["t"] for w in want], [w["name"] for w in want if w["kind"] == "sv"])
        at = {}
        for w in want:
            at[str(w["t"])] = at.get(str(w["t"]), 0) + 1
        ctx.equal("profiles of each epoch", at, {str(t): n for t, n in r["browse"]["clocks"]}, q)
        for k, kind in (("onboard", "sv"), ("ground", "station")):
            ctx.equal("clocks " + k, sorted(([w["t"], w["name"], [w["type"]] + w["v"][:3]] for w in want if w["kind"] == kind), key=str),
                      sorted(r["browse"][k], key=str), q)
        ctx.equal("types of data", ["AR", "AS", "CR", "DR", "MS"], r["header"]["clock"]["codes"], q)
        ctx.equal("time system", TS[c["cfg"]["ts"]] if c["cfg"]["ts"] else None, r["header"]["clock"]["ts"], q)
    ctx.sample(sim[-1])
    ctx.assumptions += ["one record per epoch, type and clock", "values of at most 19 columns, separated by a blank"]
    return ctx.finish(extra=dict(exhaustive_cases=len(mc), simulated_cases=len(sim), profiles=n))
