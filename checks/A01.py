"""A01: ANTEX antennas, spec/AtxText.tla (writer, reader and lookups)."""
import rnx
from rnx import line

HEADER = [line("%8s%12s%s" % ("1.4", "", "M"), "ANTEX VERSION / SYST"), line("A", "PCV TYPE / REFANT"), line("", "END OF HEADER")]


def ns(t):
    return t[:6] + [int(t[6]) * 100]


def antenna(a, bands):
    fr = [[b, f["neu"][0] / 100, f["neu"][1] / 100, f["neu"][2] / 100, [v / 100 for v in f["pat"]]] for b, f in zip(bands, a["freqs"])]
    if a["k"] == "sv":
        spec = dict(k="sv", igs=a["type"], sv=a["sv"], cospar=a["cospar"])
    else:
        spec = dict(k="rx", igs=a["type"], sn=a["serial"] or None)
    m = a["method"].split(" ")[0].capitalize() or "Unknown"
    d, mo, y = a["date"]
    valid = None
    if a["from"] or a["until"]:
        valid = [[ns(t), "UTC"] if t else None for t in (a["from"], a["until"])]
    return dict(spec=spec, method=m, agency=a["agency"], number=a["num"], valid=valid, zen=[z / 10 for z in a["zen"]],
                azi=a["dazi"] / 10, sinex=a["sinex"], date=[[y, mo, d, 0, 0, 0, 0], "UTC"], freq=fr)


def one(ctx, i, want, got, radome, q):
    """fields of one antenna, known findings apart"""
    clean = True
    g = dict(got)
    d = want["date"][0]
    rev = [[2000 + d[2], d[1], d[0] % 100, 0, 0, 0, 0], "UTC"]
    clean &= ctx.equal("calibration date", want["date"], g["date"], q, "calibration-date-reversed" if g["date"] == rev else None)
    if want["spec"]["k"] == "rx" and want["spec"] != g["spec"]:
        same = g["spec"].get("igs") == want["spec"]["igs"]
        sn = (g["spec"].get("sn") or "").split()
        known = same and "".join(sn) == radome + (want["spec"]["sn"] or "")
        clean &= ctx.equal("antenna", want["spec"], g["spec"], q, "radome-in-serial" if known else None)
    else:
        clean &= ctx.equal("antenna", want["spec"], g["spec"], q)
    v = want["valid"]
    clean &= ctx.equal("validity", v, g["valid"], q, "open-validity-ignored" if v and None in v and g["valid"] is None else None)
    for k in ("method", "agency", "number", "zen", "azi", "sinex"):
        clean &= ctx.equal(k, want[k], g[k], q)
    last = {f[0]: f for f in want["freq"]}
    o = lambda fs: sorted(fs, key=lambda f: f[0])
    sig = "same-carrier-frequencies" if len(last) < len(want["freq"]) and o(last.values()) == o(g["freq"]) else None
    clean &= ctx.equal("frequencies", o(want["freq"]), o(g["freq"]), q, sig)
    return clean


def check(ctx):
    mc = ctx.mc("RnxAtx", "RnxAtx_mc.cfg")
    sim = ctx.sim("RnxAtx", "RnxAtx_sim.cfg", ctx.scale(2400, 30000), 800, heap="1g")
    cases = mc + sim
    reqs = [dict(op="antex", text="\n".join(HEADER + c["lines"]) + "\n",
                 queries=[dict(a["q"], t=ns(a["q"]["t"])) for a in c["queries"]]) for c in cases]
    n = asked = found = 0
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        if "record" not in r:
            ctx.violation("a well formed file is not read: %s" % r, q)
            continue
        want = [antenna(a, b) for a, b in zip(c["ants"], c["bands"])]
        n += len(want)
        if not ctx.equal("number of antennas", len(want), len(r["record"]), q):
            continue
        rnx.browsed(ctx, "antex", r, q, [], antennas=len(want))
        for i, (w, g) in enumerate(zip(want, r["record"])):
            one(ctx, i, w, g, c["ants"][i]["radome"], q)
        if c["cfg"]["clean"]:
            for a, g in zip(c["queries"], r["answers"]):
                asked += 1
                found += a["neu"] != []
                ctx.equal("lookup of %s" % a["q"], [x / 100 for x in a["neu"]] or None, g[0], q)
                ctx.equal("calibrations valid at %s" % a["q"]["t"], a["valid"], g[1], q)
    ctx.sample(dict(cfg=sim[-1]["cfg"], lines=sim[-1]["lines"][:12]))
    ctx.assumptions += ["an antenna block lists its description before its frequencies",
                        "lookups are asked of files whose frequencies map to distinct carriers"]
    return ctx.finish(extra=dict(exhaustive_cases=len(mc), simulated_cases=len(sim), antennas=n, lookups=asked, lookups_answered=found))
