"""I01: IONEX maps, spec/IonText.tla (writer and reader of the body)."""
from rnx import browsed, line


def axis(a):
    return [a["a"] / 10, (a["a"] + (a["n"] - 1) * a["d"]) / 10, a["d"] / 10]


def header(cfg, maps):
    ts = [m["t"] for m in maps if m["kind"] == "TEC"] or [[2020, 1, 1, 0, 0, 0]]
    ep = lambda t: "".join("%6d" % x for x in t)
    g = lambda a: "  %6.1f%6.1f%6.1f" % tuple(axis(a))
    out = [line("%8s%12s%-20s%-20s" % ("1.0", "", "IONOSPHERE MAPS", "GPS"), "IONEX VERSION / TYPE"),
           line("%-20s%-20s%-20s" % ("spec", "verif", "01-JAN-20 00:00"), "PGM / RUN BY / DATE"),
           line(ep(ts[0]), "EPOCH OF FIRST MAP"), line(ep(ts[-1]), "EPOCH OF LAST MAP"), line("%6d" % 1800, "INTERVAL"),
           line("%6d" % len(ts), "# OF MAPS IN FILE"), line("  COSZ", "MAPPING FUNCTION"), line("%8.1f" % 10, "ELEVATION CUTOFF"),
           line("phase", "OBSERVABLES USED"), line("%8.1f" % 6371, "BASE RADIUS"),
           line("%6d" % (3 if cfg["hgt"]["n"] > 1 else 2), "MAP DIMENSION"),
           line(g(cfg["hgt"]), "HGT1 / HGT2 / DHGT"), line(g(cfg["lat"]), "LAT1 / LAT2 / DLAT"), line(g(cfg["lon"]), "LON1 / LON2 / DLON")]
    if cfg["exp"] != 99:
        out.append(line("%6d" % cfg["exp"], "EXPONENT"))
    return out + [line("", "END OF HEADER")]


def val(v, e):
    return round(v * 10.0 ** e, 6)


def point(p):
    return [[p["t"] + [0], "UTC"], p["lat"] / 10, p["lon"] / 10, p["h"] / 10, val(p["v"], p["e"]),
            None if p["rv"] == 9999 else val(p["rv"], p["re"])]


def seen(p):
    return [p[0]] + [round(x, 6) for x in p[1:5]] + [None if p[5] is None else round(p[5], 6)]


def queries(ctx, cfg, pts, m, q):
    """what the queries say of the points `pts` and the grid"""
    r6 = lambda xs: [round(x, 6) for x in xs]
    la, lo, h = (axis(cfg[k]) for k in ("lat", "lon", "hgt"))
    three = cfg["hgt"]["n"] > 1
    ctx.equal("kind of file", [True, not three, three], m["is"], q)
    ctx.equal("kinds the file is not of", [False] * 5, m["not"], q)
    ctx.equal("borders of the maps, lowest first", [sorted(la[:2]), sorted(lo[:2])], m["borders"], q)
    ctx.equal("altitudes, lowest first", sorted(h[:2]), m["altitudes"], q)
    ctx.equal("altitude of a 2D file", None if three else h[0], m["fixed"], q)
    place = lambda p: [p[0]] + r6(p[1:])
    ctx.equal("places of the maps", [p[:4] for p in pts], sorted(map(place, m["keys"])), q)
    ctx.equal("TECu and place of every point", [p[:5] for p in pts], sorted(map(place, m["tecu"])), q)
    ctx.equal("RMS and place of every point that has one", [[p[:4], p[5]] for p in pts if p[5] is not None],
              sorted([place(k), round(v, 6)] for k, v in m["rms"]), q)
    both = [[place(k)] + [None if x is None else round(x, 6) for x in v] for k, *v in m["tec"]]
    ctx.equal("values built from TECu", [[p[:4], p[4], p[5], p[4], p[5]] for p in pts], sorted(both, key=lambda z: z[0]), q)


def neighbours(ctx, near, got, q):
    """grid points next to places of each axis; above a grid point, free"""
    for k, xs in near.items():
        for (x, lo, up), z in zip(xs, got[k]):
            z = z and [round(z[0], 6), None if up == "any" else z[1] and round(z[1], 6)]
            ctx.equal("neighbours of %s on axis %s" % (x / 40, k), [lo / 10, None if up == "any" else int(up) / 10], z, q)


def check(ctx):
    mc = ctx.mc("RnxIon", "RnxIon_mc.cfg")
    sim = ctx.sim("RnxIon", "RnxIon_sim.cfg", ctx.scale(2400, 30000), 700, heap="1g")
    cases = mc + sim
    reqs = [dict(op="parse", browse=True, text="\n".join(header(c["cfg"], c["maps"]) + c["lines"] + [line("", "END OF FILE")]) + "\n",
                 near={k: [x[0] / 40 for x in c["near"][k]] for k in c["near"]}) for c in cases]
    n = full = 0
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        if "record" not in r:
            ctx.violation("a well formed file is not read: %s" % r, q)
            continue
        key = lambda p: p[:4]
        want, got = sorted(map(point, c["pts"]), key=key), sorted(map(seen, r["record"]), key=key)
        n += len(want)
        # known finding: a TEC map that no other TEC map follows
        ms = c["maps"]
        lost = [m["t"] + [0] for m, nx in zip(ms, ms[1:] + [None]) if m["kind"] == "TEC" and (nx is None or nx["kind"] != "TEC")]
        sig = None
        if got != want:
            built = [p for p in want if p[0][0] not in lost]
            sig = "last-tec-map-lost" if lost and got == built else None
        else:
            full += 1
        ctx.equal("TEC and RMS values", want, got, q, sig)
        h = r["header"]["ionex"]
        ctx.equal("grid", [axis(c["cfg"][k]) for k in ("lat", "lon", "hgt")], [h[k] for k in ("lat", "lon", "hgt")], q)
        ctx.equal("header exponent", -1 if c["cfg"]["exp"] == 99 else c["cfg"]["exp"], h["exponent"], q)
        ctx.equal("mapping function", "CosZ", h["mapping"], q)
        browsed(ctx, "ionex", r, q, [p[0] for p in got])
        queries(ctx, c["cfg"], got, r["maps"], q)
        neighbours(ctx, c["near"], r["near"], q)
    ctx.sample(dict(cfg=sim[-1]["cfg"], maps=sim[-1]["maps"]))
    ctx.assumptions += ["once one map restates the exponent, every later map does", "one map of each kind per epoch"]
    return ctx.finish(extra=dict(exhaustive_cases=len(mc), simulated_cases=len(sim), points=n, files_without_known_finding=full))
