"""X01: differences and queries of observation and meteo data sets, spec/Query.tla."""
import rnx


NOCLK, NONE = 999999, 9



def stamp(t):
    return [[2021, 3, 4, 5 + t // 3600, t // 60 % 60, t % 60, 0], "GPST"]


def signal(s):
    return [s["sv"], s["code"], s["v"] / 1000, None if s["lli"] == NONE else s["lli"], None if s["ssi"] == NONE else s["ssi"]]


def epochs(r):
    return [dict(t=stamp(e["t"]), flag=str(e["flag"]), clk=None if e["clk"] == NOCLK else e["clk"] / 1e9, sig=[signal(s) for s in e["sig"]]) for e in r]


def data(r):
    rec = epochs(r)
    return dict(kind="obs", version=[3, 5], constellation="MIXED", codes={}, first=None, last=None, interval=30_000_000_000, record=rec)


def close(x, y):
    return round(x * 1000) == y


def rows(r):
    """what a record holds, thousandths"""
    return [[stamp(e["t"]), e["flag"], None if e["clk"] == NOCLK else e["clk"],
             [[s["sv"], s["code"], s["v"], None if s["lli"] == NONE else s["lli"], None if s["ssi"] == NONE else s["ssi"]] for s in e["sig"]]] for e in r]


def seen(r):
    return [[e["t"], int(e["flag"]), None if e["clk"] is None else round(e["clk"] * 1e9),
             [s[:2] + [round(s[2] * 1000)] + s[3:] for s in e["sig"]]] for e in r]


def uniq(l):
    out = []
    for x in l:
        if not out or out[-1] != x:
            out.append(x)
    return out


def observations(ctx):
    mc = ctx.mc("Query", "Query_mc.cfg")
    mc = mc[::ctx.scale(7, 1)]
    cases = mc + ctx.sim("Query", "Query_sim.cfg", ctx.scale(8000, 100000), 40)
    reqs = [dict(op="query", a=data(c["a"]), b=data(c["b"]), mask=c["mask"]) for c in cases]
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        if "diff" not in r:
            ctx.violation("a query failed: %s" % r, q)
            continue
        a = c["a"]
        ctx.equal("difference of two data sets", rows(c["diff"]), seen(r["diff"]), q)
        ctx.equal("difference in place", rows(c["diff"]), seen(r["mutated"]), q)
        ctx.equal("left operand afterwards", rows(a), seen(r["left"]), q)
        ctx.equal("masked by tracking flags", rows(c["masked"]), seen(r["masked"]), q)
        for k in ("all", "range", "phase", "doppler", "strength", "slip", "halfslip", "good"):
            want = [[stamp(a[i - 1]["t"]), str(a[i - 1]["flag"]), signal(a[i - 1]["sig"][j - 1])] for i, j in c["q"][k]]
            ctx.equal("query " + k, want, r[k], q)
        for k in ("ok", "okrange", "okphase"):
            want = [[stamp(a[i - 1]["t"]), signal(a[i - 1]["sig"][j - 1])] for i, j in c["q"][k]]
            ctx.equal("query " + k, want, r[k], q)
        for k, p in enumerate(c["q"]["goodfrom"]):
            want = [[stamp(a[i - 1]["t"]), str(a[i - 1]["flag"]), signal(a[i - 1]["sig"][j - 1])] for i, j in p]
            ctx.equal("signals from strength %d" % (k + 1), want, r["goodfrom"][k], q)
        ctx.equal("record edited in place", rows(c["raised"]), seen(r["raised"]), q)
        ctx.equal("keys", [[stamp(e["t"]), str(e["flag"])] for e in a], r["keys"], q)
        ctx.equal("numbers of signals", [len(e["sig"]) for e in a], r["sizes"], q)
        # anti-spoofing alone does not say whether the tracking was good
        want = [[stamp(a[i - 1]["t"]), signal(a[i - 1]["sig"][j - 1])] for i, j in c["q"]["tracked"]]
        ctx.equal("query tracked", [x for x in want if x[1][3] != 4], [x for x in r["tracked"] if x[1][3] != 4], q)
        ctx.equal("epochs of an anomaly", [[stamp(a[i - 1]["t"]), str(a[i - 1]["flag"])] for i in c["q"]["anomalies"]], r["anomalies"], q)
        ctx.equal("receiver clocks", [[stamp(a[i - 1]["t"]), str(a[i - 1]["flag"]), a[i - 1]["clk"]] for i in c["q"]["clocks"]],
                  [x[:2] + [round(x[2] * 1e9)] for x in r["clocks"]], q)
        ctx.equal("epochs", uniq([stamp(e["t"]) for e in a]), uniq(r["epochs"]), q)
        ctx.equal("satellites", sorted(c["q"]["svs"]), sorted(r["svs"]), q)
        ctx.equal("constellations", sorted({s[0] for s in c["q"]["svs"]}), sorted(x[:1] for x in r["constellations"]), q)
        ctx.equal("observables", sorted(c["q"]["codes"]), sorted(r["codes"]), q)
    ctx.sample(cases[-1])
    return len(cases)


def weather(ctx):
    mc = ctx.mc("MetQuery", "MetQuery_mc.cfg")
    cases = mc[::ctx.scale(4, 1)] + ctx.sim("MetQuery", "MetQuery_sim.cfg", ctx.scale(3000, 40000), 60)

    def rec(l):
        return sorted([stamp(s["t"]), s["c"], s["v"] / 10] for s in l)

    def dat(l):
        return dict(kind="meteo", version=[3, 5], codes=sorted({s["c"] for s in l}), record=rec(l))
    reqs = [dict(op="query_meteo", a=dat(c["a"]), b=dat(c["b"])) for c in cases]
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        if "diff" not in r:
            ctx.violation("a query failed: %s" % r, q)
            continue
        ctx.equal("difference of two weather data sets", sorted([stamp(s["t"]), s["c"], s["v"]] for s in c["diff"]),
                  sorted(x[:2] + [round(x[2] * 10)] for x in r["diff"]), q)
        ctx.equal("weather samples", rec(c["a"]), sorted(r["all"]), q)
        ctx.equal("epochs of weather data", [stamp(t) for t in sorted({s["t"] for s in c["a"]})], r["epochs"], q)
        ctx.equal("observables of weather data", sorted({s["c"] for s in c["a"]}), sorted(r["codes"]), q)
        for k, v in r["by"].items():
            ctx.equal("weather query " + k, [x[::2] for x in rec(c["by"].get(k, []))], v, q)
        ctx.equal("accumulated rain", c["rain"], round(r["total"] * 10), q)
        ctx.equal("rain detected", c["rain"] > 0, r["rain"], q)
        ctx.equal("hail detected", c["hail"], r["hail"], q)
    return len(cases)


def physics(ctx):
    """observables are of the same physics exactly when they measure the same thing"""
    kinds = {"code": ["C1C", "P1", "C2W"], "phase": ["L1C", "L2", "L5Q"], "doppler": ["D1C", "D2"], "strength": ["S1C", "S2"]}
    kinds.update({c: [c] for c in ("PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI")})
    codes = [(c, k) for k, l in kinds.items() for c in l]
    q = dict(op="physics", codes=[c for c, _ in codes])
    r = ctx.run([q])[0]
    for i, (c, k) in enumerate(codes):
        for j, (d, l) in enumerate(codes):
            ctx.equal("%s and %s of the same physics" % (c, d), k == l, r["same"][i][j], q)


def check(ctx):
    n = observations(ctx)
    m = weather(ctx)
    physics(ctx)
    ctx.assumptions += ["a signal is listed once per epoch and satellite", "values of three decimals below 10^7",
                        "phases flagged with anti-spoofing alone are left out of the tracking query"]
    return ctx.finish(extra=dict(observation_cases=n, weather_cases=m))
