"""F01: standard file names, spec/FileName.tla."""
import datetime, os, shutil, tempfile
from fractions import Fraction
from rnx import line, HEADNAME

VER = "     3.05           "


def times(d):
    t = d["t"]
    t0 = datetime.datetime(t["y"], 1, 1, t["hh"], t["mm"]) + datetime.timedelta(days=t["doy"] - 1)
    step = Fraction(1, d["p"]["hz"]) if d["p"]["hz"] else Fraction(d["p"]["s"])
    for i in range(d["n"]):
        ticks = int(i * step * 10**7)
        yield t0 + datetime.timedelta(seconds=ticks // 10**7), ticks % 10**7


def generic(d):
    out = [line("%-20s%-20s%-20s" % ("spec", d["agency"], "20200101 000000 UTC"), "PGM / RUN BY / DATE")]
    if d["kind"] != "ION" and d["marker"]:
        out.append(line(d["marker"], "MARKER NAME"))
    out.append(line("%-20s%-40s" % ("someone", d["agency"]), "OBSERVER / AGENCY"))
    if d["rcvr"]:
        out.append(line("%-20s%-20s%-20s" % ("1234", "SEPT POLARX5", "5.3.2"), "REC # / TYPE / VERS"))
    return out


def text(d):
    k, s = d["kind"], d["sys"]
    ts = list(times(d))
    if k in ("OBS", "CRX"):
        sat = "%s05" % (s if s != "M" else "G")
        out = [line(VER + "%-20s%-20s" % ("OBSERVATION DATA", s + ": " + HEADNAME[s]), "RINEX VERSION / TYPE")] + generic(d)
        t = ts[0][0]
        out += [line("%s    1 C1C" % sat[0], "SYS / # / OBS TYPES"),
                line("%6d%6d%6d%6d%6d%13.7f     %-3s" % (t.year, t.month, t.day, t.hour, t.minute, t.second,
                                                         {"R": "GLO", "E": "GAL", "C": "BDT", "J": "QZS"}.get(s, "GPS")), "TIME OF FIRST OBS"),
                line("", "END OF HEADER")]
        if k == "CRX":
            out = [line("3.0                 COMPACT RINEX FORMAT", "CRINEX VERS   / TYPE"), line("%-40s%s" % ("spec", "01-Jan-20 00:00"), "CRINEX PROG / DATE")] + out
        for t, f in ts:
            e = "> %04d %02d %02d %02d %02d %2d.%07d  0  1" % (t.year, t.month, t.day, t.hour, t.minute, t.second, f)
            if k == "CRX":
                out += [e + "      " + sat, "", "3&20000000000"]
            else:
                out += [e, sat + "  20000000.000"]
    elif k == "MET":
        out = [line(VER + "METEOROLOGICAL DATA", "RINEX VERSION / TYPE")] + generic(d)
        out += [line("     1    PR", "# / TYPES OF OBSERV"), line("", "END OF HEADER")]
        out += [" %04d %02d %02d %02d %02d %02d  987.1" % (t.year, t.month, t.day, t.hour, t.minute, t.second) for t, _ in ts]
    elif k == "NAV":
        out = [line(VER + "%-20s%-20s" % ("N: GNSS NAV DATA", s + ": " + HEADNAME[s]), "RINEX VERSION / TYPE")] + generic(d) + [line("", "END OF HEADER")]
        sat = "%s05" % (s if s != "M" else "G")
        z = " 0.000000000000E+00"
        for t, _ in ts:
            out.append("%s %04d %02d %02d %02d %02d %02d" % (sat, t.year, t.month, t.day, t.hour, t.minute, t.second) + z * 3)
            out += ["    " + z * 4] * (3 if s in "RS" else 7)
    else:
        ep = lambda t: "%6d%6d%6d%6d%6d%6d" % (t.year, t.month, t.day, t.hour, t.minute, t.second)
        out = [line("%8s%12s%-20s%-20s" % ("1.0", "", "IONOSPHERE MAPS", "GPS"), "IONEX VERSION / TYPE")] + generic(d)
        out += [line(ep(ts[0][0]), "EPOCH OF FIRST MAP"), line(ep(ts[-1][0]), "EPOCH OF LAST MAP"), line("%6d" % (d["p"]["s"] or 1), "INTERVAL"),
                line("%6d" % len(ts), "# OF MAPS IN FILE"), line("  COSZ", "MAPPING FUNCTION"), line("%8.1f" % 6371, "BASE RADIUS"),
                line("     2", "MAP DIMENSION"), line("   450.0 450.0   0.0", "HGT1 / HGT2 / DHGT"),
                line("    87.5  87.5  -2.5", "LAT1 / LAT2 / DLAT"), line("     0.0  10.0   5.0", "LON1 / LON2 / DLON"), line("", "END OF HEADER")]
        # the last map of a file is not kept (known finding of I01): repeat it
        for kind in ("TEC",):
            for i, (t, _) in enumerate(ts + ts[-1:]):
                out += [line("%6d" % (i + 1), "START OF %s MAP" % kind), line(ep(t), "EPOCH OF CURRENT MAP"),
                        line("    87.5   0.0  10.0   5.0 450.0", "LAT/LON1/LON2/DLON/H"), "   10   11   12", line("%6d" % (i + 1), "END OF %s MAP" % kind)]
        out.append(line("", "END OF FILE"))
    return "\n".join(out) + "\n"


def check(ctx):
    mc = ctx.mc("FileName", "FileName_mc.cfg")
    sim = ctx.sim("FileName", "FileName_sim.cfg", ctx.scale(3000, 40000), 30)
    mc = mc[::ctx.scale(3, 1)]
    cases = mc + sim
    dir = tempfile.mkdtemp(prefix="verif-F01-")
    try:
        jobs = [(c["data"], r, dict(op="fname", dir=os.path.join(dir, "%d-%d" % (i, j)), file=r["given"], text=text(c["data"]), custom=r["custom"]))
                for i, c in enumerate(cases) for j, r in enumerate(c["rounds"])]
        got = ctx.run([q for _, _, q in jobs])
    finally:
        shutil.rmtree(dir, ignore_errors=True)
    kept = 0
    for (d, r, q), g in zip(jobs, got):
        if "prod" not in g:
            ctx.violation("naming a file failed: %s" % g, q)
            continue
        o = r["outs"]
        ctx.equal("attributes of the file name", r["prod"], g["prod"], q)
        for k, what in (("short", "short name"), ("long", "long name"), ("cshort", "short name for given attributes"), ("clong", "long name for given attributes"),
                        ("guess", "attributes deduced from the content"), ("gshort", "short name for deduced attributes"),
                        ("glong", "long name for deduced attributes")):
            ctx.equal(what, o[k], g[k], q)
        ctx.equal("name with a suffix", o["long"] + ".gz", g["suffixed"], q)
        kept += r["given"].upper() in (o["short"].upper(), o["long"].upper())
    # names alone: those that are no standard name are refused, none makes the reader fail
    names = {}
    for c in cases:
        for r in c["rounds"]:
            want = r["prod"] if r["standard"] else None
            names[r["given"]] = want
            for i in range(0, len(r["given"]), 5):
                names[r["given"][:i] + "\u00e9" + r["given"][i + 1:]] = None
    keys = sorted(names)
    reqs = [dict(op="fname_read", names=keys[i:i + 200]) for i in range(0, len(keys), 200)]
    for q, r in zip(reqs, ctx.run(reqs)):
        for n, a in zip(q["names"], r["read"]):
            ctx.equal("attributes read from the name %r" % n, names[n], a, dict(name=n))
    ctx.sample(cases[-1])
    ctx.assumptions += ["file periods of the standard, sampling periods of at most 99 units, rates of at most 9900 Hz",
                        "station names of four characters or more"]
    return ctx.finish(extra=dict(exhaustive_cases=len(mc), simulated_cases=len(sim), files_named=len(jobs), names_read=len(keys),
                                 refused=sum(v is None for v in names.values()), names_kept=kept))
