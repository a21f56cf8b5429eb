"""Q01: carriers and combinations of signals, spec/Signals.tla."""
from fractions import Fraction

C = 299_792_458
LETTERS = "CDLSP"


def stamp(t):
    return [[2021, 3, 4, 5 + t // 3600, t // 60 % 60, t % 60, 0], "GPST"]


def data(r):
    rec = [dict(t=stamp(e["t"]), flag=str(e["flag"]), clk=None, sig=[[s["sv"], s["code"], s["v"] / 1000, None, None] for s in e["sig"]]) for e in r]
    return dict(kind="obs", version=[3, 5], constellation="MIXED", codes={}, first=None, last=None, interval=30_000_000_000, record=rec)


class Values:
    """what an expression of the specification is worth, in meters"""

    def __init__(self, freq):
        self.freq = freq

    def meters(self, s):
        v = Fraction(s["v"], 1000)
        return v * C / (self.freq[s["sv"][0], s["code"]] * 1000) if s["code"][0] == "L" else v

    def sum(self, sig, terms):
        t = m = Fraction(0)
        for x in terms:
            p = Fraction(x["s"])
            for f in x["f"]:
                p *= f
            if x["x"] != "":
                p *= self.meters(sig[x["x"] - 1])
            t += p
            m = max(m, abs(p))
        return t, m

    def of(self, sig, e):
        """value and how much rounding its evaluation may bear"""
        n, m = self.sum(sig, e["num"])
        d, _ = self.sum(sig, e["den"])
        return n / d, float(m / abs(d)) * 1e-11 + 1e-9


def near(v, want):
    return not isinstance(v, str) and abs(Fraction(v) - want[0]) <= want[1]


def table(ctx):
    known = ctx.mc("Signals", "Signals_table.cfg")[0]["table"]
    freq = {(x["s"], x["c"]): x["f"] for x in known}
    # every standard code, then every code that no table of the standard lists
    other = [(s, l + b + a) for s in "GRESJCI" for l in "CLDS" for b in "123456789" for a in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if (s, l + b + a) not in freq]
    codes = sorted(freq) + other
    r = ctx.run([dict(op="carriers", codes=codes)])[0]
    for (s, c), x in zip(codes, r):
        q = dict(op="carriers", codes=[[s, c]])
        if (s, c) in freq:
            f = freq[s, c]
            if s == "E" and c[1:] == "5" and x is not None and round(x[0]) == 1191795000:
                ctx.violation("carrier of Galileo %s" % c, dict(expected=f, observed=x, case=q), sig="galileo-v2-band5")
                continue
            ctx.equal("carrier of %s %s" % (s, c), [f, f, True, c[1:] if len(c) == 3 else None],
                      x and [round(x[0]) / 1000, round(x[1] * 1000), abs(x[2] - C / (f * 1000)) < 1e-9, x[3]], q)
        elif (c[1:] in ("1N", "2N") and s == "G"):
            continue
        else:
            ctx.equal("%s has no signal %s" % (s, c), None, x, q)
    return freq, len(codes)


def check(ctx):
    freq, n_codes = table(ctx)
    val = Values(freq)
    mc = ctx.mc("Signals", "Signals_mc.cfg")
    n_mc = len(mc)
    cases = mc[::ctx.scale(6, 1)] + ctx.sim("Signals", "Signals_sim.cfg", ctx.scale(5000, 60000), 12)
    reqs = [dict(op="combine", a=data(c["rec"])) for c in cases]
    formed = 0
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        if "gf" not in r:
            ctx.violation("no combination: %s" % str(r)[:80], dict(observed=r, case=q))
            continue
        rec = c["rec"]
        at = {str(stamp(e["t"])): i for i, e in enumerate(rec)}
        flag = {i: str(e["flag"]) for i, e in enumerate(rec)}
        for kind in ("gf", "if", "wl", "nl", "mw"):
            want = {}       # epoch, satellite, signal -> reference -> values
            for i, l in enumerate(c["combos"]):
                sig = rec[i]["sig"]
                for x in l:
                    a, b = sig[x["lhs"] - 1], sig[x["ref"] - 1]
                    if kind == "mw":
                        w = val.of(sig, x["wl"])
                        vs = [(w[0] - n[0], w[1] + n[1]) for n in (val.of(sig, y) for y in x["mw"])]
                    else:
                        vs = [val.of(sig, x[kind])]
                    if vs:
                        want.setdefault((i, a["sv"], a["code"]), {})[b["code"]] = vs
            seen = set()
            for t, f, sv, lhs, ref, v in r[kind]:
                i = at.get(str(t))
                k = (i, sv, lhs)
                if k not in want or ref not in want[k]:
                    ctx.violation("%s of %s and %s that are not to be combined" % (kind, lhs, ref), dict(observed=[t, f, sv, lhs, ref, v], case=q))
                    continue
                seen.add(k)
                ctx.equal("epoch flag of a combination", flag[i], f, q)
                ctx.cov["comparisons"] += 1
                formed += 1
                if not any(near(v, w) for w in want[k][ref]):
                    ctx.violation("value of a combination (%s)" % kind, dict(expected=[float(w[0]) for w in want[k][ref]], observed=[t, sv, lhs, ref, v], case=q))
            for k in sorted(set(want) - seen):
                ctx.violation("combination not formed (%s)" % kind, dict(expected=[stamp(rec[k[0]]["t"])] + list(k[1:]), observed=None, case=q))
        want = {(i, rec[i]["sig"][x["sig"] - 1]["sv"], rec[i]["sig"][x["sig"] - 1]["code"], rec[i]["sig"][x["rhs"] - 1]["code"]): val.of(rec[i]["sig"], x["mp"])
                for i, l in enumerate(c["multipath"]) for x in l}
        got = {(at.get(str(t)), sv, a, b): v for t, sv, a, b, v in r["multipath"]}
        ctx.equal("signals whose multipath is known", sorted(want), sorted(got, key=str) if None in [k[0] for k in got] else sorted(got), q)
        for k, v in got.items():
            if k in want and not near(v, want[k]):
                ctx.violation("value of a multipath", dict(expected=float(want[k][0]), observed=[list(k), v], case=q))
        want = sorted((i, rec[i]["sig"][p - 1]["sv"], rec[i]["sig"][p - 1]["code"], rec[i]["sig"][s - 1]["code"]) for i, l in enumerate(c["tec"]) for p, s in l)
        got = sorted((at.get(str(t), -1), sv, a, b) for t, sv, a, b, _ in r["tec"])
        ctx.equal("signals that estimate the ionosphere", want, got, q)
        for x in r["tec"]:
            if isinstance(x[4], str):
                ctx.violation("ionosphere estimate that is not a number", dict(observed=x, case=q))
        ctx.equal("carriers", sorted(c["carriers"]), sorted(round(x[0]) / 1000 for x in dedup(r["carriers"])), q)
        ctx.equal("signals", sorted(c["suffixes"]), sorted(r["suffixes"]), q)
    ctx.sample(cases[-1])
    ctx.assumptions += ["a signal is listed once per epoch and satellite", "epoch flags 0 and 1",
                        "which of several reference signals is taken is left open", "the value of the TEC estimates, that unit tests pin, is not judged"]
    return ctx.finish(extra=dict(codes=n_codes, exhaustive_cases=n_mc, combinations=formed))


def dedup(l):
    """two carriers may share a frequency"""
    return list({round(x[0]): x for x in l}.values())
