"""Concrete form of abstract observation files: header text around a body, and
the canonical record (what harness/src/dump.rs prints) expected for it."""
TS = {"GPS": "GPST", "GLO": "UTC", "GAL": "GST", "BDT": "BDT", "QZS": "QZSST", "IRN": "GPST"}
HEADTS = {"G": "GPST", "R": "UTC", "E": "GST", "C": "BDT", "J": "QZSST", "S": "GPST", "I": "GPST"}
HEADNAME = {"G": "GPS", "R": "GLONASS", "E": "GALILEO", "C": "BDS", "J": "QZSS", "S": "SBAS", "M": "MIXED", "I": "IRNSS"}


def line(content, label):
    return "%-60s%s" % (content, label)


def obs_types(cfg):
    """the V2 or V3 observable declarations"""
    out = []
    if cfg["ver"] < 3:
        codes = next(iter(cfg["codes"].values()))
        for i in range(0, max(1, len(codes)), 9):
            out.append(line(("%6d" % len(codes) if i == 0 else " " * 6)
                            + "".join("    %2s" % c for c in codes[i:i + 9]), "# / TYPES OF OBSERV"))
    else:
        for l in sorted(cfg["codes"]):
            codes = cfg["codes"][l]
            for i in range(0, max(1, len(codes)), 13):
                out.append(line(("%s  %3d" % (l, len(codes)) if i == 0 else " " * 6)
                                + "".join(" " + c for c in codes[i:i + 13]), "SYS / # / OBS TYPES"))
    return out


def ts_of(cfg):
    return TS[cfg.get("ts", "GPS")] if cfg.get("ts", "GPS") else HEADTS[cfg["head"]]


def obs_header(cfg, extra=()):
    ver = {2: "2.11", 3: "3.05", 4: "4.00"}[cfg["ver"]]
    sysname = cfg["head"] + " " + "(" + HEADNAME[cfg["head"]] + ")"
    out = [line("%9s%11s%-20s%-20s" % (ver, "", "OBSERVATION DATA", sysname), "RINEX VERSION / TYPE"),
           line("%-20s%-20s%-20s" % ("spec", "verif", "20200101 000000 UTC"), "PGM / RUN BY / DATE")]
    out += list(extra)
    out += obs_types(cfg)
    out.append(line("%6d%6d%6d%6d%6d%13.7f     %-3s" % (cfg.get("y", 2020), cfg.get("mo", 1), cfg.get("d", 1), 0, 0, 0.0,
                                                         cfg.get("ts", "GPS")), "TIME OF FIRST OBS"))
    out.append(line("", "END OF HEADER"))
    return out


def sv(x):
    return "%s%02d" % (x[0], x[1])


def epoch(e, ts):
    return [[e["y"], e["mo"], e["d"], e["h"], e["mi"], e["s"], int(e["f"]) * 100], ts]


def obs_epoch(cfg, e):
    sig = []
    for s in e["sats"]:
        for code, o in zip(cfg["codes"][s["sv"][0]], s["obs"]):
            if o["v"] != "":
                sig.append([sv(s["sv"]), code, float(o["v"]), None if o["lli"] == " " else int(o["lli"]),
                            None if o["ssi"] == " " else int(o["ssi"])])
    return dict(t=epoch(e, ts_of(cfg)), flag=str(e["flag"]), clk=float(e["clk"]) if e["clk"] else None, sig=sig)


def key(o):
    return (o["t"][0], o["flag"])


def obs_record(cfg, epochs):
    """as the crate orders it: by epoch then flag"""
    return sorted((obs_epoch(cfg, e) for e in epochs), key=key)


def sorted_sigs(rec):
    return [dict(o, sig=sorted(o["sig"], key=lambda s: (s[0], s[1]))) for o in rec]


def data(cfg, epochs, rng):
    """the in-memory data set harness/src/make.rs builds"""
    names = {"G": "GPS", "R": "GLO", "E": "GAL", "C": "BDS", "J": "QZSS", "S": "SBAS", "I": "IRNSS", "M": "MIXED"}
    rec = []
    for e in epochs:
        o = obs_epoch(cfg, e)
        o["sig"] = rng.sample(o["sig"], len(o["sig"]))
        rec.append(o)
    e0 = dict(epochs[0]) if epochs else dict(y=2020, mo=1, d=1, h=0, mi=0, s=0, f="0000000")
    return dict(kind="obs", version=[cfg["ver"], {2: 11, 3: 5, 4: 0}[cfg["ver"]]], constellation=names[cfg["head"]],
                codes={names[k]: v for k, v in cfg["codes"].items()}, first=epoch(e0, ts_of(cfg)), last=None,
                interval=None, record=rec)


def body(text):
    ls = text.split("\n")
    if ls and ls[-1] == "":
        ls.pop()
    for i, l in enumerate(ls):
        if l[60:].strip() == "END OF HEADER":
            return ls[i + 1:]
    return ls


def binding(ctx, module, traces, n=60):
    """one corrupted digit per file must be noticed by the trace specification"""
    import random
    rng = random.Random(1)
    bad = []
    for t in traces[-n:]:
        ls = [list(l) for l in t["lines"]]
        pos = [(i, j) for i, l in enumerate(ls) for j, ch in enumerate(l) if ch.isdigit()]
        if pos:
            i, j = rng.choice(pos)
            ls[i][j] = "1" if ls[i][j] == "9" else "123456789"[int(ls[i][j])]
            bad.append(dict(t, lines=["".join(l) for l in ls]))
    got = ctx.accept(module, module + ".cfg", bad, tag="corrupt")
    ctx.cov["corrupted_traces_rejected"] = len(got)
    return len(got) == len(bad), got


KINDS = ["obs", "meteo", "nav", "clock", "ionex", "antex", "doris"]


def browsed(ctx, kind, r, q, epochs, svs=(), observables=(), antennas=0, repeated=False):
    """the queries that apply to every kind of file"""
    b = r["browse"]
    if not repeated:
        epochs = [e for i, e in enumerate(sorted(epochs)) if i == 0 or e != sorted(epochs)[i - 1]]
    ctx.equal("epochs browsed", sorted(epochs), b["epochs"] if not repeated else sorted(b["epochs"]), q)
    ctx.equal("satellites browsed", sorted(set(svs)), sorted(b["svs"]), q)
    ctx.equal("constellations browsed", sorted({s[0] for s in svs}), sorted({c[0] for c in b["constellations"]}), q)
    ctx.equal("observables browsed", sorted(set(observables)), sorted(b["observables"]), q)
    ctx.equal("antennas browsed", antennas, b["antennas"], q)
    ctx.equal("kind of file", [k == kind for k in KINDS], b["is"], q)
    if kind != "clock":
        ctx.equal("clock profiles browsed", [[], [], []], [b["clocks"], b["onboard"], b["ground"]], q)
