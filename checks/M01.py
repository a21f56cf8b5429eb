"""M01: meteo files, spec/MetText.tla (writer and reader of the body)."""
import random
import rnx


def header(cfg):
    ver = {2: "2.11", 3: "3.05", 4: "4.00"}[cfg["ver"]]
    out = [rnx.line("%9s%11s%-20s" % (ver, "", "METEOROLOGICAL DATA"), "RINEX VERSION / TYPE"),
           rnx.line("%-20s%-20s%-20s" % ("spec", "verif", "20200101 000000 UTC"), "PGM / RUN BY / DATE")]
    codes = cfg["codes"]
    for i in range(0, len(codes), 9):
        out.append(rnx.line(("%6d" % len(codes) if i == 0 else " " * 6)
                            + "".join("    %2s" % c for c in codes[i:i + 9]), "# / TYPES OF OBSERV"))
    out.append(rnx.line("", "END OF HEADER"))
    return out


def stamp(e):
    return [[e["y"], e["mo"], e["d"], e["h"], e["mi"], e["s"], 0], "UTC"]


def record(cfg, epochs):
    return sorted([stamp(e), c, float(v)] for e in epochs for c, v in zip(cfg["codes"], e["vals"]) if v != "")


def data(cfg, epochs):
    return dict(kind="meteo", version=[cfg["ver"], {2: 11, 3: 5, 4: 0}[cfg["ver"]]], codes=cfg["codes"],
                record=record(cfg, epochs))


def check(ctx):
    mc = ctx.mc("RnxMet", "RnxMet_mc.cfg")
    sim = ctx.sim("RnxMet", "RnxMet_sim.cfg", ctx.scale(4000, 60000), 90, heap="1g")
    mc = [c for i, c in enumerate(mc) if i % ctx.scale(4, 1) == 0]
    cases = mc + sim
    # reading
    reqs = [dict(op="parse", browse=True, text="\n".join(header(c["cfg"]) + c["lines"]) + "\n") for c in cases]
    n = 0
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        if "record" not in r:
            ctx.violation("a well formed file is not read: %s" % r, q)
            continue
        want = record(c["cfg"], c["epochs"])
        n += len(want)
        ctx.equal("samples read", want, sorted(r["record"]), q)
        rnx.browsed(ctx, "meteo", r, q, [w[0] for w in want], observables=[w[1] for w in want])
        ctx.equal("observables of the header", c["cfg"]["codes"], (r["header"]["meteo"] or {}).get("codes"), q)
    # writing; an epoch of which nothing is known does not exist in memory
    reqs, traces, idx = [], [], []
    for c in cases:
        c["kept"] = [e for e in c["epochs"] if any(e["vals"])]
        reqs.append(dict(op="roundtrip", data=data(c["cfg"], c["kept"])))
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        if "text" not in r:
            ctx.violation("writing failed: %s" % r, q)
            continue
        d = dict(data=q, text=r["text"])
        traces.append(dict(cfg=c["cfg"], lines=rnx.body(r["text"]), epochs=c["kept"]))
        idx.append(d)
        if "record" not in r["back"]:
            ctx.violation("what was written is not read back: %s" % r["back"], d)
            continue
        ctx.equal("samples read back", record(c["cfg"], c["kept"]), sorted(r["back"]["record"]), d)
        ctx.equal("observables read back", c["cfg"]["codes"], (r["back"]["header"]["meteo"] or {}).get("codes"), d)
    for b in ctx.accept("MetTrace", "MetTrace.cfg", traces, tag="written"):
        ctx.violation("the text written does not hold the data in its columns: line %d, mode %s %s, epoch %d"
                      % (b["line"], b["mode"], b["err"], b["epoch"]), idx[b["bad"]])
    ok, got = rnx.binding(ctx, "MetTrace", traces)
    if not ok:
        ctx.violation("the trace specification accepts corrupted text", {})
    ctx.sample(sim[-1])
    ctx.assumptions += ["values of one decimal within seven columns", "ten meteo observables at most (all that are defined)"]
    return ctx.finish(extra=dict(exhaustive_cases=len(mc), simulated_cases=len(sim), samples_read=n))
