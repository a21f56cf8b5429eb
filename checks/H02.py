"""H02: headers of IONEX, clock and antenna files, spec/HdrText2.tla (writer and reader), spec/RnxHdr2.tla (any order)."""

KIND = {"I": "IonosphereMaps", "C": "ClockData", "A": "AntennaData"}
CONST = {"G": "GPS", "R": "Glonass", "E": "Galileo", "C": "BeiDou", "J": "QZSS", "S": "SBAS", "I": "IRNSS", "M": "Mixed", "": None}
TS = {"GPS": "GPST", "GAL": "GST", "UTC": "UTC", "TAI": "TAI", "BDT": "BDT", "GLO": "UTC", "QZS": "QZSST", "": None}
REF = {"GPS": ["GnssConstellation(GPS)"], "GLO": ["GnssConstellation(Glonass)"], "GNS": ["GnssConstellation(Mixed)"],
       "GEO": ["GnssConstellation(SBAS)"], "MIX": ["GnssConstellation(Mixed)", "Model(MIX)"], "BEN": ["ObservationSystem(BENt)"],
       "ENV": ["ObservationSystem(ENVisat)"], "ERS": ["ObservationSystem(ERS)"], "IRI": ["ObservationSystem(IRI)"],
       "NNS": ["Model(NNS)"], "TOP": ["Model(TOP)"]}
MAPF = {"COSZ": "CosZ", "QFAC": "QFac", "NONE": None, "": None}


def opt(s):
    return s or None


def expected(w):
    pgm = w["pgm"] or [""] * 3
    out = {"version": [int(w["ver"].split(".")[0]), int(w["ver"].split(".")[1])], "type": KIND[w["typ"]], "comments": w["notes"],
           "program": opt(pgm[0]), "run_by": opt(pgm[1]), "date": opt(pgm[2]), "dcb": w["dcb"], "pcv": w["pcv"],
           "ionex": None, "clock": None, "antex": None, "obs": None, "meteo": None}
    fl = lambda s, d: float(s) if s else d
    if w["typ"] == "I":
        ep = lambda t: [t + [0], "UTC"] if t else "any"
        ax = lambda a: [float(x) for x in a] if a else "any"
        out["interval"] = int(w["intv"]) * 10 ** 9 if w["intv"] not in ("", "0") else None
        out["ionex"] = dict(ref=w["sys"], maps=int(w["maps"] or 0), first=ep(w["first"]), last=ep(w["last"]), dim=int(w["dim"] or 2),
                            radius=fl(w["rad"], 6371.0), exponent=int(w["exp"] or -1), cutoff=fl(w["elev"], 0.0), stations=int(w["nsta"] or 0),
                            sats=int(w["nsat"] or 0), observables=opt(w["obsu"]), model=w["obsu"] == "", description=opt(" ".join(w["dsc"])), mapping=MAPF[w["mapf"]],
                            lat=ax(w["lat"]), lon=ax(w["lon"]), hgt=ax(w["hgt"]))
    else:
        out["constellation"] = CONST[w["sys"]]
    if w["typ"] == "C":
        sn, ac = w["sname"] or [None] * 2, w["ac"] or [None] * 2
        out["leap"] = [int(w["leap"])] + [None] * 4 if w["leap"] else None
        out["clock"] = dict(site=sn[0], domes=sn[1], igs=ac[0], full=ac[1], ref=opt(w["sref"]), ts=TS[w["tsid"]], codes=w["types"],
                            work=[[n, d, float(c) if c else None] for n, d, c in w["wclk"]])
    if w["typ"] == "A":
        k, t, s = w["pcvt"] or ["A", "", ""]
        out["antex"] = dict(pcv="Absolute" if k == "A" else 'Relative("%s")' % (t or "AOAD/M_T"), ref=opt(s))
    return out


def check(ctx):
    mc = ctx.mc("RnxHdr2", "RnxHdr2_mc.cfg")
    sim = ctx.sim("RnxHdr2", "RnxHdr2_sim.cfg", ctx.scale(6000, 100000), 120, heap="1g")
    cases = mc + sim
    end = {"I": ["%60s%s" % ("", "END OF FILE")]}
    reqs = [dict(op="parse", text="\n".join(c["lines"] + end.get(c["cfg"]["typ"], [])) + "\n") for c in cases]
    n = 0
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        if "header" not in r:
            ctx.violation("a well formed header is not read: %s" % r, q)
            continue
        want, got = expected(c["want"]), r["header"]
        for k, a in want.items():
            b = got[k]
            if k == "ionex" and a and b:
                b = {x: y for x, y in b.items() if x in a}
                b["ref"] = a["ref"] if b["ref"] in REF[a["ref"]] else b["ref"]
                for x in ("radius", "cutoff"):
                    b[x] = round(b[x], 2)
                b.update({x: "any" for x in a if a[x] == "any"})
            for x in a if isinstance(a, dict) and b else [None]:
                n += 1
                if x is None:
                    ctx.equal("header field '%s'" % k, a, b, q)
                else:
                    ctx.equal("header field '%s' of %s" % (x, k), a[x], b[x], q)
    ctx.sample(sim[-1]["lines"])
    ctx.assumptions += ["the first line comes first; lines of one field follow one another, comments apart", "one line per non-repeating field",
                        "marker numbers follow the DOMES convention", "'LEAP SECONDS GNSS' and differential code biases are not judged"]
    return ctx.finish(extra=dict(exhaustive_cases=len(mc), simulated_cases=len(sim), fields=n))
