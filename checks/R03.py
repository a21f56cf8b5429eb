"""R03: comments of file bodies, spec/Notes.tla (writer of entries and comments, reader)."""
from rnx import line

MET = ["PR", "TD", "HR", "ZW", "ZD", "ZT", "WD", "WS", "RI", "HI"]


def header(kind):
    w = 65 if kind == "C3" else 60
    lab = lambda s, l: s.ljust(w) + l
    first = {"O2": ("2.11", "OBSERVATION DATA", "G (GPS)"), "O3": ("3.04", "OBSERVATION DATA", "G (GPS)"), "M2": ("2.11", "METEOROLOGICAL DATA", ""),
             "M4": ("4.00", "METEOROLOGICAL DATA", ""), "N2": ("2.11", "N: GPS NAV DATA", ""), "N3": ("3.04", "NAVIGATION DATA", "G"),
             "N3R": ("3.04", "NAVIGATION DATA", "M"), "N4": ("4.00", "NAVIGATION DATA", "M"), "C2": ("2.00", "CLOCK DATA", "")}
    if kind == "I":
        out = [line("%8s%12s%-20s%-20s" % ("1.0", "", "IONOSPHERE MAPS", "GPS"), "IONEX VERSION / TYPE")]
        out += [line("  %6.1f%6.1f%6.1f" % g, l) for g, l in (((450, 450, 0), "HGT1 / HGT2 / DHGT"), ((10, 0, -10), "LAT1 / LAT2 / DLAT"), ((0, 10, 10), "LON1 / LON2 / DLON"))]
    elif kind == "C3":
        out = [lab("%-21s%-21s%s" % ("3.04", "C", "G"), "RINEX VERSION / TYPE")]
    elif kind != "D":
        out = [line("%9s%11s%-20s%-20s" % (first[kind][0], "", first[kind][1], first[kind][2]), "RINEX VERSION / TYPE")]
    if kind == "D":
        out = [line("%9s%11s%-20s%s" % ("3.00", "", "O", "D"), "RINEX VERSION / TYPE"),
               line("D    6  L1  L2  C1  C2  W1  W2", "SYS / # / OBS TYPES")]
        out += [line("D%02d  OWFC OWENGA                        50253S002  3   0" % i, "STATION REFERENCE") for i in (1, 2)]
    if kind == "O2":
        out.append(line("     1    C1", "# / TYPES OF OBSERV"))
    if kind == "O3":
        out.append(line("G    1 C1C", "SYS / # / OBS TYPES"))
    if kind[0] == "O":
        out.append(line("  2021     3     7     0     0    0.0000000     GPS", "TIME OF FIRST OBS"))
    if kind[0] == "M":
        out += [line("    10" + "".join("    " + c for c in MET[:9]), "# / TYPES OF OBSERV"), line("      " + "    " + MET[9], "# / TYPES OF OBSERV")]
    if kind[0] == "C":
        out += [lab("   GPS", "TIME SYSTEM ID"), lab("     1    AS", "# / TYPES OF DATA")]
    return out + [lab("a header comment", "COMMENT"), lab("", "END OF HEADER")]


TS = {"O": "GPST", "M": "UTC", "C": "GPST", "I": "UTC"}


def check(ctx):
    mc = ctx.mc("Notes", "Notes_mc.cfg")
    sim = ctx.sim("Notes", "Notes_sim.cfg", ctx.scale(4000, 60000), 120, heap="1g")
    cases = mc + sim
    reqs = [dict(op="parse", text="\n".join(header(c["kind"]) + c["lines"] + [line("", "END OF FILE")] * (c["kind"] == "I")) + "\n") for c in cases]
    n = 0
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        if "record" not in r:
            ctx.violation("a well formed file is not read: %s" % r, q)
            continue
        got = [[t[0], [x.rstrip() for x in v]] for t, v in r["comments"]]
        want = [[[2021, 3, 7, h, 0, 0, 0], [x.rstrip() for x in v]] for h, v in sorted(c["by"])]
        n += sum(len(v) for _, v in want)
        ctx.equal("comments of the body, by epoch", want, got, q)
        ctx.equal("comments of the header", ["a header comment"], r["header"]["comments"], q)
    ctx.sample(sim[-1])
    ctx.assumptions += ["entries that cannot be read and events of observation files are not among the entries", "compact observation files carry comments in events only"]
    return ctx.finish(extra=dict(exhaustive_cases=len(mc), simulated_cases=len(sim), comments=n))
