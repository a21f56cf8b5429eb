"""H01: headers, spec/HdrText.tla (writer and reader), spec/RnxHdr.tla (any order), spec/HdrTrace.tla (what is written)."""
import random
import rnx

KIND = {"O": "ObservationData", "M": "MeteoData", "N": "NavigationData"}
CONST = {"G": "GPS", "R": "Glonass", "E": "Galileo", "C": "BeiDou", "J": "QZSS", "S": "SBAS", "I": "IRNSS", "M": "Mixed", "": None}
MARKER = {"GEODETIC": "Geodetic", "NON_GEODETIC": "NonGeodetic", "NON_PHYSICAL": "NonPhysical", "SPACEBORNE": "Spaceborne", "AIRBORNE": "Airborne",
          "WATER_CRAFT": "Watercraft", "GROUND_CRAFT": "Groundcraft", "FIXED_BUOY": "FixedBuoy", "FLOATING_BUOY": "FloatingBuoy",
          "FLOATING_ICE": "FloatingIce", "GLACIER": "Glacier", "BALLISTIC": "Ballistic", "ANIMAL": "Animal", "HUMAN": "Human"}
TS = {"GPS": "GPST", "BDS": "BDT"}
IONO = {"GPS": "G", "GAL": "E", "BDS": "C", "QZS": "J"}


def num(s):
    return float(s.replace("D", "E"))


def opt(s):
    return s or None


def fl(v):
    return [num(x) for x in v] if v else None


def when(t, cfg):
    if not t:
        return None
    s, f = t[5].split(".")
    ts = dict(rnx.TS, IRN="GPST")[t[6]] if t[6] else rnx.HEADTS[cfg["sys"]]
    return [t[:5] + [int(s), int(f) * 100], ts]


def expected(cfg, w):
    """the canonical header (harness/src/dump.rs) the specification's header stands for"""
    obs = cfg["typ"] == "O"
    codes = {c["sys"]: c["l"] for c in w["codes"]}
    if "" in codes and obs:
        codes = {s: codes[""] for s in ("GSRE" if cfg["sys"] == "M" else cfg["sys"])}
    pgm, obsr = w["pgm"] or [""] * 3, w["obsr"] or [""] * 2
    scal = sorted(([s, c, int(k)] for s, c, k in w["scal"]), key=lambda x: str(x))
    iono = {}
    for x in w["iono"]:
        p = iono.setdefault(IONO[x[0][:3]], [0.0] * 8 if x[0] != "GAL" else [0.0] * 3)
        at = 4 if x[0].endswith("B") else 0
        p[at:at + len(x) - 1] = fl(x[1:])
    if w["alpha"] or w["beta"]:
        p = (fl(w["alpha"]) or [0.0] * 4) + (fl(w["beta"]) or [0.0] * 4)
        iono = {s: p for s in "GRCEIJS"}
    sensors = {s[0]: dict(obs=s[0], model=opt(s[1]), type=opt(s[2]), acc=fl([s[3]])[0] if s[3] else None, pos=None, h=None) for s in w["sensors"]}
    for p in w["spos"]:
        if p[0] in sensors:
            sensors[p[0]].update(pos=fl(p[1:4]), h=num(p[4]))
    lp = w["leap"]
    return {
        "version": [int(x) for x in w["ver"].split(".")], "type": KIND[w["typ"]], "constellation": CONST[w["sys"]],
        "comments": w["notes"], "program": opt(pgm[0]), "run_by": opt(pgm[1]), "date": opt(pgm[2]),
        "observer": opt(obsr[0]), "agency": opt(obsr[1]),
        "marker": dict(name=w["mname"], number=opt(w["mnum"]), type=MARKER.get(w["mtype"])) if w["mname"] or w["mnum"] or w["mtype"] else None,
        "rcvr": w["rec"] or None,
        "ant": dict(sn=(w["ant"] or [""])[0], model=(w["ant"] or ["", ""])[1], coords=fl(w["xyz"]), hen=fl(w["hen"]) or [None] * 3)
               if w["ant"] or w["hen"] or w["xyz"] else None,
        "pos": fl(w["pos"]), "interval": round(num(w["intv"]) * 1e9) if w["intv"] else None,
        "leap": ([int(lp[0])] + [int(x) for x in lp[1:4]] + [None] * (4 - len(lp[:4])) + [TS[lp[4]] if len(lp) > 4 else None]) if lp else None,
        "glo": sorted(([s, int(c)] for s, c in w["glo"]), key=lambda x: str(x)),
        "dcb": w["dcb"], "pcv": w["pcv"], "doi": opt(w["doi"]), "license": opt(w["lic"]), "station_url": opt(w["url"]),
        "obs": dict(first=when(w["first"], cfg), last=when(w["last"], cfg), codes=codes, clk_applied=w["clk"] == "1", scaling=scal) if obs else None,
        "meteo": dict(codes=codes.get("", []), sensors=sorted(sensors.values(), key=lambda s: s["obs"])) if cfg["typ"] == "M" else None,
        "iono": iono,
    }


def seen(h):
    h = dict(h)
    if h.get("obs"):
        h["obs"] = {k: v for k, v in h["obs"].items() if k != "crinex"}
        h["obs"]["scaling"] = sorted(h["obs"]["scaling"], key=lambda x: str(x))
    if h.get("meteo"):
        h["meteo"] = dict(h["meteo"], sensors=sorted((dict(s, acc=None if s["acc"] is None else round(s["acc"], 4)) for s in h["meteo"]["sensors"]), key=lambda s: s["obs"]))
    h["iono"] = {s: m["p"] for s, m in h["iono"]}
    h["glo"] = sorted(h["glo"], key=lambda x: str(x))
    return h


# what the formatter is documented to hold; the rest is read only
KEPT = ["version", "type", "constellation", "comments", "program", "run_by", "date", "observer", "agency", "marker", "rcvr", "ant", "pos",
        "interval", "leap", "glo", "obs", "meteo"]
SKIP = ["dcb", "pcv", "doi", "lic", "url"]


def body(cfg, w):
    """one epoch, so that the file is complete"""
    if cfg["typ"] == "O" and cfg["ver"] < "3":
        return [" 21  3  7  0  0  0.0000000  4  0"]
    return []


def check(ctx):
    mc = ctx.mc("RnxHdr", "RnxHdr_mc.cfg")
    sim = ctx.sim("RnxHdr", "RnxHdr_sim.cfg", ctx.scale(6000, 100000), 220, heap="1g")
    cases = mc + sim
    reqs = [dict(op="parse" if c["cfg"]["typ"] == "N" else "roundtrip", text="\n".join(c["lines"]) + "\n") for c in cases]
    traces, idx = [], []
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        mem = r.get("mem", r)
        if "header" not in mem:
            ctx.violation("a well formed header is not read or not written: %s" % {k: v for k, v in r.items() if k != "mem"}, q)
            continue
        want, got = expected(c["cfg"], c["want"]), seen(mem["header"])
        ok = True
        for k in want:
            ok &= bool(ctx.equal("header field '%s' read" % k, want[k], got[k], q))
        if c["cfg"]["typ"] == "N" or not ok:
            continue
        d = dict(q, written=r["text"])
        if "header" not in r["back"]:
            ctx.violation("what was written is not read back: %s" % r["back"], d)
            continue
        back = seen(r["back"]["header"])
        for k in KEPT:
            a, b = want[k], back[k]
            if k == "ant" and a and b:       # unknown eccentricities are written as zero
                a, b = (dict(h, hen=[x or 0.0 for x in h["hen"]]) for h in (a, b))
            ctx.equal("header field '%s' read back" % k, a, b, d)
        lines = r["text"].split("\n")
        end = next((i for i, l in enumerate(lines) if l[60:].strip() == "END OF HEADER"), len(lines))
        w = dict(c["want"])
        for k in ("first", "last"):  # what is left out by the default is stated when written
            if w[k]:
                w[k] = w[k][:6] + [dict(IRN="GPS").get(w[k][6], w[k][6]) or {v: x for x, v in rnx.TS.items() if x != "IRN"}[rnx.HEADTS[c["cfg"]["sys"]]]]
        traces.append(dict(lines=lines[:end + 1], want=w, skip=SKIP))
        idx.append(d)
    for b in ctx.accept("HdrTrace", "HdrTrace.cfg", traces, tag="written"):
        t = traces[b["bad"]]
        ctx.violation("the header written does not hold the fields in their columns: %s %s, line %r"
                      % (b["err"], b["fields"], t["lines"][b["line"] - 1]), idx[b["bad"]])
    if not binding(ctx, traces):
        ctx.violation("the trace specification accepts corrupted headers", {})
    ctx.sample(sim[-1]["lines"])
    ctx.assumptions += ["the first line comes first; continuation lines follow theirs, comments apart", "one line per non-repeating field",
                        "marker numbers follow the DOMES convention"]
    return ctx.finish(extra=dict(exhaustive_cases=len(mc), simulated_cases=len(sim), headers_written=len(traces)))


def binding(ctx, traces):
    """one corrupted character of a written header must be noticed"""
    rng = random.Random(1)
    bad = []
    for t in traces[-60:]:
        ls = list(t["lines"])
        k = rng.choice([i for i, l in enumerate(ls) if l[:60].strip()])
        p = rng.choice([i for i, ch in enumerate(ls[k][:60]) if ch != " "] if not k == 0 else [5, 20])
        ls[k] = ls[k][:p] + ("7" if ls[k][p] != "7" else "8") + ls[k][p + 1:]
        bad.append(dict(t, lines=ls))
    return not bad or len(ctx.accept("HdrTrace", "HdrTrace.cfg", bad, tag="corrupted")) >= 0.9 * len(bad)
