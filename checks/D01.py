"""D01: DORIS files, spec/DorText.tla (writer and reader of the file)."""
import rnx

CODE = {"T": "TD", "P": "PR", "H": "HR"}       # observables shared with meteo files go by those names


def code(o):
    return CODE.get(o, o)


def stamp(e):
    return [[e["y"], e["mo"], e["d"], e["h"], e["mi"], e["s"], e["ns"]], "TAI"]


def order(rows):
    return sorted(rows, key=lambda r: str(r))


def text(s):
    return "D%02d  %-4s %-29s %s%3d %3d" % tuple(s[k] for k in ("key", "label", "site", "domes", "gen", "kf"))


def signals(cfg, e):
    st = {s["key"]: s for s in cfg["stations"]}
    return [[st[x["key"]]["label"], text(st[x["key"]]), code(o), float(v["v"])] + [int(v[m]) if v[m] else None for m in ("m1", "m2")]
            for x in e["seen"] for o, v in zip(cfg["obs"], x["vals"]) if v["v"] != ""]


def epoch(cfg, e):
    return dict(t=stamp(e), flag=str(e["flag"]), clk=float(e["clk"]), drift=None, ext=e["ext"] == "1", sig=order(signals(cfg, e)))


def stations(cfg, shifts):
    return [dict(text=text(s), label=s["label"], site=s["site"], domes=s["domes"], gen=s["gen"], kf=s["kf"],
                 s1=2036.25e6 + m[0] * 5e6 / (5 * 2.0 ** 26), u2=401.25e6 + m[1] * 5e6 / (5 * 2.0 ** 26)) for s, m in zip(cfg["stations"], shifts)]


def near(a, b):
    """frequencies: a tenth of a millihertz"""
    if isinstance(a, list):
        return [near(x, y) for x, y in zip(a, b)] if len(a) == len(b) else a
    return dict(a, **{k: b[k] for k in ("s1", "u2") if abs(a[k] - b[k]) < 1e-4})


def check(ctx):
    mc = ctx.mc("RnxDor", "RnxDor_mc.cfg")
    sim = ctx.sim("RnxDor", "RnxDor_sim.cfg", ctx.scale(2500, 40000), 200, heap="1g")
    mc = [c for i, c in enumerate(mc) if i % ctx.scale(4, 1) == 0]
    cases = mc + sim
    reqs = [dict(op="parse", browse=True, text="\n".join(c["head"] + c["lines"]) + "\n") for c in cases]
    n = 0
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        cfg = c["cfg"]
        h = (r.get("header") or {}).get("doris")
        if "record" not in r or h is None:
            ctx.violation("a well formed file is not read: %s" % str(r)[:300], q)
            continue
        want = sorted((epoch(cfg, e) for e in c["epochs"]), key=lambda e: (e["t"], e["flag"]))
        got = [dict(e, sig=order(e["sig"])) for e in r["record"]]
        n += sum(len(e["sig"]) for e in want)
        ctx.equal("epochs", want, got, q)
        ctx.equal("satellite", cfg["name"], h["sat"], q)
        ctx.equal("observables", [code(o) for o in cfg["obs"]], h["codes"], q)
        ctx.equal("time of first measurement", stamp(cfg["first"]), h["first"], q)
        ctx.equal("scaling", order([code(o), s["factor"]] for s in cfg["scale"] for o in s["codes"]), order(h["scaling"]), q)
        ctx.equal("offset between the two frequencies", round(float(cfg["offset"]) * 1000), h["offset_ns"], q)
        ctx.equal("stations", near(stations(cfg, c["shifts"]), h["stations"]), h["stations"], q)
        d = r["doris"]
        rnx.browsed(ctx, "doris", r, q, [e["t"] for e in want], observables=[s[2] for e in want for s in e["sig"]], repeated=True)
        ctx.equal("type of file", [True, False, False, False], d["is"], q)
        ctx.equal("epochs browsed", [[e["t"], e["flag"]] for e in want], d["keys"], q)
        ctx.equal("observations browsed", [[e["t"], len(e["sig"])] for e in want], d["iter"], q)
        ctx.equal("time line", [e["t"] for e in want], d["epochs"], q)
        ctx.equal("clock browsed", [[e["t"], e["clk"]] for e in want], d["clk"], q)
        ctx.equal("stations browsed", [s["label"] for s in cfg["stations"]], d["stations"], q)
        ctx.equal("signals browsed", order([e["t"], e["flag"]] + s for e in want for s in e["sig"]), order(d["sig"]), q)
    ctx.sample(sim[-1])
    ctx.assumptions += ["values as printed: the scale factors of the header are reported, not applied", "flags 0 and 1", "writing DORIS files is not implemented"]
    return ctx.finish(extra=dict(exhaustive_cases=len(mc), simulated_cases=len(sim), measurements=n))
