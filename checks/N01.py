"""N01: navigation messages, spec/NavText.tla (writer and reader of the body)."""
import rnx

TS = {"G": "GPST", "R": "UTC", "E": "GST", "C": "BDT", "J": "QZSST", "S": "GPST"}
ENUM = {"G": range(8), "J": range(8), "R": (0, 4), "S": (0, 8)}
WORST = {"G": 0, "J": 0, "R": 4, "S": 0}


def header(cfg):
    if cfg["ver"] == 2:
        l = "%9s%11s%-20s" % ("2.%d" % cfg["minor"], "", "N: GPS NAV DATA" if cfg["head"] == "G" else "G: GLONASS NAV DATA")
    else:
        names = dict(rnx.HEADNAME, M="MIXED")
        l = "%9s%11s%-20s%-20s" % ("%d.%02d" % (cfg["ver"], cfg["minor"]), "", "NAVIGATION DATA",
                                    "%s: %s" % (cfg["head"], names[cfg["head"]]))
    return [rnx.line(l, "RINEX VERSION / TYPE"),
            rnx.line("%-20s%-20s%-20s" % ("spec", "verif", "20200101 000000 UTC"), "PGM / RUN BY / DATE"),
            rnx.line("", "END OF HEADER")]


def num(s):
    return float(s.upper().replace("D", "E"))


def item(sys, name, text):
    """how the crate types a field"""
    v = num(text)
    if name == "week":
        return ["u32", int(v)]
    if name == "channel":
        return ["i8", int(v)]
    if name == "status":
        return ["status", int(v) & 0x7f]
    if name in ("health", "almanacHealth") and sys not in "JC":
        n = int(v)
        return ["health", n if sys == "E" or n in ENUM[sys] else WORST[sys]]
    return ["f64", v]


def frame(cfg, f):
    sys = f["sv"][0]
    d = {k: v for k, v in f["fields"]}
    t = f["t"][:6] + [f["t"][6] * 100000000]
    msg = f["msg"]
    out = dict(key=[[t, TS[sys]], "%s%02d" % (sys, f["sv"][1]), msg, f["cls"]])
    if f["cls"] == "EPH":
        clk = [num(d.pop(k)) for k in ("bias", "drift", "rate")]
        orb = {k: item(sys, k, v) for k, v in d.items()}
        if sys == "S":     # transmission time, exposed under this name
            orb["week"], clk[2] = ["u32", int(clk[2])], 0.0
        out.update(k="EPH", clk=clk, orb=orb, zero={k for k, v in d.items() if num(v) == 0})
    elif f["cls"] == "EOP":
        out.update(k="EOP", p=[num(d[k]) for k in ("x0", "x1", "x2", "y0", "y1", "y2", "u0", "u1", "u2")], t_tm=int(num(d["t_tm"])))
    elif f["cls"] == "STO":
        out.update(k="STO", system=d["system"], utc=d.get("utc", ""), t_tm=int(num(d["t_tm"])), a=[num(d[k]) for k in ("a0", "a1", "a2")])
    elif sys == "E":
        out.update(k="ION", ion=dict(m="NG", p=[num(d["a%d" % i]) for i in range(3)], r=int(num(d.get("region", "0")))))
    elif sys == "C" and msg == "CNVX":
        out.update(k="ION", ion=dict(m="BD", p=[num(d["a%d" % i]) for i in range(9)], r=None))
    else:
        out.update(k="ION", ion=dict(m="KB", p=[num(d["%s%d" % (c, i)]) for c in "ab" for i in range(4)],
                                     r="Japan" if num(d.get("region", "0")) == 1 else "Worldwide"))
    return out


def check(ctx):
    mc = ctx.mc("RnxNav", "RnxNav_mc.cfg")
    sim = ctx.sim("RnxNav", "RnxNav_sim.cfg", ctx.scale(4800, 60000), 120, heap="1g")
    cases = mc + sim
    reqs = [dict(op="parse", browse=True, text="\n".join(header(c["cfg"]) + c["lines"]) + "\n") for c in cases]
    n = nf = 0
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        if "record" not in r:
            ctx.violation("a well formed file is not read: %s" % r, q)
            continue
        want = {str(f["key"]): f for f in (frame(c["cfg"], f) for f in c["frames"])}
        got = {str([f["t"], f["sv"], f["msg"], f["frm"]]): f["v"] for f in r["record"]}
        if not ctx.equal("frames of the record", sorted(want), sorted(got), q):
            continue
        rnx.browsed(ctx, "nav", r, q, [w["key"][0] for w in want.values()], [w["key"][1] for w in want.values()], repeated=True)
        for k, w in want.items():
            n += 1
            g = got[k]
            sig = None
            if w["k"] == "EPH":
                # a zero may be taken as not provided
                orb = {a: b for a, b in g.get("orb", {}).items() if a not in w["zero"]}
                zero = {a: b for a, b in g.get("orb", {}).items() if a in w["zero"]}
                nf += len(orb)
                ctx.equal("class and clock terms of %s" % k, ["EPH", w["clk"]], [g["k"], g.get("clk")], q)
                ctx.equal("orbit fields of %s" % k, {a: b for a, b in w["orb"].items() if a not in w["zero"]}, orb, q)
                ctx.equal("zero fields of %s" % k, {a: w["orb"][a] for a in zero}, zero, q)
                continue
            w = {a: b for a, b in w.items() if a != "key"}
            if w["k"] == "STO" and g.get("t_tm") == min(max(int(w["a"][2]), 0), 2**32 - 1) and g.get("a") == [float(w["t_tm"])] + w["a"][:2]:
                sig = "sto-field-order"
                ctx.equal("names of %s" % k, [w["system"], w["utc"]], [g["system"], g["utc"]], q)
            ctx.equal("frame %s" % k, w, g, q, sig=sig)
    ctx.sample(sim[-1])
    ctx.assumptions += ["constellations with an entry in the field database (not NavIC)",
                        "one message per epoch, satellite, class and message type",
                        "a field whose value is zero may be left out of the orbit map (documented as unresolved)"]
    return ctx.finish(extra=dict(exhaustive_cases=len(mc), simulated_cases=len(sim), frames=n, orbit_fields=nf))
