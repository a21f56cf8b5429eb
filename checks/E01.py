"""E01: broadcast ephemerides, spec/Ephem.tla (selection) and spec/Orbit.tla (state)."""
import math
from datetime import datetime, timedelta
from fractions import Fraction

SCALE = {"G": "GPST", "J": "QZSST", "E": "GST", "S": "GPST", "C": "BDT", "R": "UTC"}
BEHIND = {"GPST": 0, "QZSST": 0, "GST": 0, "BDT": 14, "UTC": 18}     # seconds, from 2017 on
MSG = {"G": ["LNAV", "CNAV"], "J": ["LNAV", "CNAV"], "E": ["INAV", "FNAV"], "S": ["SBAS", "SBAS"], "C": ["D1", "D2"], "R": ["FDMA", "FDMA"]}
WEEK = 604800
C = 299792458.0


def stamp(week, sec, scale):
    """[[y, m, d, h, mi, s, ns], scale] of `sec` seconds of week `week`, counted by that scale"""
    ns = 0
    if sec != int(sec):
        ns = round((sec - math.floor(sec)) * 1e9)
    t = datetime(1980, 1, 6) + timedelta(seconds=week * WEEK + math.floor(sec))
    return [[t.year, t.month, t.day, t.hour, t.minute, t.second, ns], scale]


def instant(week, sec, own, scale):
    scale = own if scale == "own" else scale
    return stamp(week, sec + BEHIND[own] - BEHIND[scale], scale)


def secs(week, e, own):
    """seconds of the week, in the scale `own`, of what the harness read back"""
    y, mo, d, h, mi, s, ns = e[0]
    t = datetime(y, mo, d, h, mi, s) - datetime(1980, 1, 6)
    return t.days * 86400 + t.seconds + Fraction(ns, 10 ** 9) - week * WEEK + BEHIND[e[1]] - BEHIND[own]


def weekno(week, s):
    return week - 1356 if s == "C" else week


# an orbit no element of which is zero
EL = dict(sqrta=5153.7, e=0.01, i0=0.96, omega=0.5, omega0=-1.2, m0=0.7, deltaN=4.2e-9, idot=1e-10, omegaDot=-8e-9,
          cuc=1e-6, cus=2e-6, cic=1e-7, cis=-1e-7, crc=200.0, crs=30.0)
KIND = {"EPH": "eph", "KLO": "klo", "NEQ": "neq", "BDG": "bdg", "EOP": "eop", "STO": "sto"}


def message(w, m):
    s, prn = m["sv"]
    r = dict(t=stamp(w, m["toc"], SCALE[s]), sv="%s%02d" % (s, prn), msg=MSG[s][m["kind"]], typ=m["typ"], mark=m["k"])
    if m["typ"] == "EPH":
        r["clk"] = [repr(x) for x in (float(m["k"]), 1e-12 * m["k"], 1e-18 * m["k"])]
        if s in "RS":
            r["orb"] = dict(satPosX=1000.5 + m["k"], satPosY=0.0 if m["k"] % 3 == 0 else -2000.25, satPosZ=3000.0, velX=1.0, velY=-2.0, velZ=3.5)
        else:
            r["orb"] = dict(EL, toe=m["toe"] % WEEK)
            r["week"] = weekno(w + m["toe"] // WEEK, s)
    if m["typ"] == "EOP":
        r["dut"] = m["k"] / 64 - 0.25
    return r


def selection(ctx, cases):
    qs = [dict(op="ephem", msgs=[message(c["w"], m) for m in c["msgs"]],
               sel=[dict(sv="%s%02d" % tuple(q["sv"]), t=instant(c["w"], q["t"], SCALE[q["sv"][0]], q["scale"])) for q in c["sel"]])
          for c in cases]
    for c, q, r in zip(cases, qs, ctx.run(qs)):
        d = dict(data=q)
        if "panic" in r or "abort" in r:
            ctx.violation("navigation queries fail", dict(d, got=r))
            continue
        ms = {m["k"]: m for m in c["msgs"]}
        # a GLONASS or SBAS message has one kind only: two of them on one date replace each other
        keys = {}
        for m, x in zip(c["msgs"], q["msgs"]):
            keys.setdefault((str(x["t"]), x["sv"], x["msg"], {"KLO": 1, "NEQ": 1, "BDG": 1}.get(x["typ"], x["typ"])), []).append(m["k"])
        if any(len(v) > 1 for v in keys.values()):
            continue
        ctx.cov["data_sets"] = ctx.cov.get("data_sets", 0) + 1
        ids = {k: [x["t"], x["sv"], x["msg"]] for k, x in ((x["mark"], x) for x in q["msgs"])}
        srt = lambda l: sorted(l, key=str)
        ctx.equal("navigation type", True, r["is_nav"], d)
        ctx.equal("messages listed", srt(ids.values()), srt(r["keys"]), d)
        ctx.equal("message types listed", srt(ids.values()), srt(r["types"]), d)
        for typ, name in KIND.items():
            ctx.equal("messages of kind " + typ, srt([ids[k], float(k)] for k in ms if ms[k]["typ"] == typ), srt(r[name]), d)
        ctx.equal("ionosphere models", srt(ids[k] for k in ms if ms[k]["typ"] in ("KLO", "NEQ", "BDG")), srt(r["ion"]), d)
        ctx.equal("satellite clocks", srt([ids[k], [float(k), 1e-12 * k, 1e-18 * k]] for k in ms if ms[k]["typ"] == "EPH"), srt(r["clk"]), d)
        # TAI is 37 s ahead of UTC since 2017
        ctx.equal("TAI - UT1", srt([ids[k][0], round((37 - (k / 64 - 0.25)) * 1e9)] for k in ms if ms[k]["typ"] == "EOP"), srt(r["ut1"]), d)
        for qq, x, a in zip(c["sel"], q["sel"], r["sel"]):
            s = qq["sv"][0]
            dd = dict(d, query=x, want=qq["want"], got=a)
            got = a["sel"] and round(a["sel"][2])
            ctx.cov["comparisons"] += 1
            if (got is None) != (not qq["want"]) or (got is not None and got not in qq["want"]):
                ctx.violation("ephemeris selected", dd)
                continue
            if got is None:
                ctx.equal("orbit without ephemeris", None, a["orbit"], dd)
                continue
            m = ms[got]
            ctx.equal("toc of the selection", m["toc"], secs(c["w"], a["sel"][0], SCALE[s]), dd)
            ctx.equal("toe of the selection", m["toc"] if s in "RS" else m["toe"], secs(c["w"], a["sel"][1], SCALE[s]), dd)
            if a["orbit"] is None:
                ctx.violation("no orbit for the selected ephemeris", dd)
                continue
            ctx.equal("date of the orbit", qq["t"], secs(c["w"], a["orbit"][2], SCALE[s]), dd)
            if s in "RS":
                o = message(c["w"], m)["orb"]
                ctx.equal("position as broadcast", [o["satPosX"], o["satPosY"], o["satPosZ"]], a["orbit"][0], dd)
                ctx.equal("position and velocity as broadcast", [[o["satPosX"], o["satPosY"], o["satPosZ"]], [o["velX"], o["velY"], o["velZ"]]], a["pv"], dd)
            else:
                el = dict(EL, toe=m["toe"] % WEEK, dn=EL["deltaN"])
                close(ctx, "orbit of the selected ephemeris", state(ctx.programs[tuple(qq["sv"])], el, qq["t"] - m["toe"])[0], a["orbit"][0], 1e-6, dd)
        ctx.sample(dict(data=q, answer=r))


def close(ctx, what, want, got, tol, d):
    ctx.cov["comparisons"] += 1
    if got is None or any(isinstance(x, str) or not abs(x - y) <= tol for x, y in zip(got, want)):
        ctx.violation(what, dict(d, expected=want, obtained=got))
        return False
    return True


class Program:
    """runs what spec/Orbit.tla wrote, in floating point"""

    def __init__(self, c):
        self.lines = [(x["n"], x["e"]) for x in c["program"]]
        self.env = dict(mu=float(c["mu"]), we=float(c["we"]), c=C, tilt=math.radians(c["tilt"]))

    def ev(self, e, env):
        op = e[0]
        if op == "v":
            return env[e[1]]
        if op == "k":
            return e[1]
        a = self.ev(e[1], env)
        if op == "sqrt":
            return math.sqrt(a)
        if op == "sin":
            return math.sin(a)
        if op == "cos":
            return math.cos(a)
        b = self.ev(e[2], env)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            return a / b
        if op == "atan2":
            return math.atan2(a, b)
        if op == "kepler":                                  # E - b sin E = a
            x = a
            for _ in range(60):
                x -= (x - b * math.sin(x) - a) / (1 - b * math.cos(x))
            return x
        raise ValueError(op)

    def at(self, el, tk):
        env = dict(self.env, **el)
        env["tk"] = tk
        for n, e in self.lines:
            env[n] = self.ev(e, env)
        return [env["X"] / 1000, env["Y"] / 1000, env["Z"] / 1000, env["dtr"]]


class View(Program):
    """a station of the WGS84 ellipsoid, in km"""

    def __init__(self, c):
        f = 1 / 298.257223563
        self.lines = [(x["n"], x["e"]) for x in c["look"]]
        self.sta = dict(ae=6378.137, e2=f * (2 - f), lat=math.radians(float(c["sta"]["lat"])), lon=math.radians(float(c["sta"]["lon"])), h=float(c["sta"]["h"]))
        self.rx = [self.of([9e3, 9e3, 9e3])[k] for k in ("RX", "RY", "RZ")]

    def of(self, pos):
        env = dict(self.sta, X=pos[0], Y=pos[1], Z=pos[2])
        for n, e in self.lines:
            env[n] = self.ev(e, env)
        return env

    def judge(self, ctx, what, pos, vel, got, d):
        z = self.of(pos)
        if got is None:
            return ctx.violation(what, dict(d, expected="an answer"))
        off = (got[0] - math.degrees(z["az"]) + 180) % 360 - 180
        close(ctx, what, [0, math.degrees(z["elev"]), z["range"]], [off * math.cos(z["elev"])] + got[1:3], 1e-6, d)
        if vel:
            close(ctx, what + ": range rate", [sum(v * z[k] for v, k in zip(vel, ("dx", "dy", "dz"))) / z["range"]], got[3:4], 1e-7, d)


def state(p, el, tk):
    """position (km), velocity (km/s), relativistic correction (s) and its rate"""
    el = {k: float(v) for k, v in el.items()}
    x = p.at(el, tk)
    def diff(h):
        a, b = p.at(el, tk + h), p.at(el, tk - h)
        return [(u - v) / (2 * h) for u, v in zip(a, b)]
    d = [(4 * u - v) / 3 for u, v in zip(diff(2.0), diff(4.0))]   # error in h^4
    return x[:3], d[:3], x[3], d[3]


def states(ctx, cases):
    qs = []
    for c in cases:
        s, prn = c["sv"]
        own = SCALE[s]
        el = {("deltaN" if k == "dn" else k): v for k, v in c["el"].items()}
        qs.append(dict(op="state", rx=View(c).rx, sv="%s%02d" % (s, prn), clk=c["a"], orb=dict(el, toe=float(c["toe"]), tgd=c["a"][0]), week=weekno(c["w"], s),
                       toc=stamp(c["w"], c["toe"] + c["toc"], own), max=c["max"],
                       ts=[instant(c["w"], c["toe"] + k, own, c["scale"]) for k in c["tks"]]))
    for c, q, r in zip(cases, qs, ctx.run(qs)):
        d = dict(data=q)
        if "panic" in r or "abort" in r:
            ctx.violation("the state of a satellite is not determined", dict(d, got=r))
            continue
        s = c["sv"][0]
        ctx.equal("toe", c["toe"], r["toe"] and secs(c["w"], r["toe"], SCALE[s]), d)
        ctx.equal("clock parameters", [float(x) for x in c["a"]], r["clock"], d)
        close(ctx, "group delay", [float(c["a"][0]) * 1e9], [r["tgd"]] if r["tgd"] is not None else None, 1.0, d)
        p, view = Program(c), View(c)
        el = {k: float(v) for k, v in q["orb"].items()}
        got = r["elements"] or {}
        ctx.equal("elements", dict(el, a=True), dict(got, sqrta=el["sqrta"], tgd=el["tgd"], a=abs(got.get("a", 0) - el["sqrta"] ** 2) < 1e-6), d)
        # builders hold the semi-major axis, the message its root
        first = r["at"][0]["orbit"]
        ctx.equal("orbit out of elements given to the builders, or none", first is None, r["again"] is None, d)
        if first and r["again"]:
            close(ctx, "orbit out of elements given to the builders", first[0] + first[1], r["again"][0] + r["again"][1], 1e-6, d)
        # an eccentricity no navigation satellite has: an answer is due, any
        wild = float(c["el"]["e"]) > 0.3
        for k, a in zip(c["tks"], r["at"]):
            dd = dict(d, tk=k, got=a)
            valid = 0 <= k < {"G": 7200, "J": 7200, "E": 10800, "C": 21600}[s]
            ctx.equal("validity", valid, a["valid"], dd)
            dt = k - c["toc"]
            if dt < 0:
                ctx.equal("clock correction before the reference", None, a["clk"], dd)
            else:
                a0, a1, a2 = (float(x) for x in c["a"])
                close(ctx, "clock correction", [(a0 + a1 * dt + a2 * dt * dt) * 1e9], [a["clk"]] if a["clk"] is not None else None, 1.5, dd)
            if k < 0 or wild:
                continue
            pos, vel, dtr, rate = state(p, dict(c["el"], toe=c["toe"]), k)
            if a["orbit"] is None or (a["pv"] is None and s != "J"):
                ctx.violation("no orbit out of valid elements", dd)
                continue
            close(ctx, "position", pos, a["orbit"][0], 1e-6, dd)
            close(ctx, "velocity", vel, a["orbit"][1], 1e-8, dd)
            ctx.equal("date of the orbit", c["toe"] + k, secs(c["w"], a["orbit"][2], SCALE[s]), dd)
            if a["pv"]:
                close(ctx, "position of the pair", pos, a["pv"][0], 1e-6, dd)
                close(ctx, "velocity of the pair", vel, a["pv"][1], 1e-8, dd)
            view.judge(ctx, "satellite seen from a station", pos, None, a["angles"], dd)
            if valid and dt >= 0:
                view.judge(ctx, "satellite of the data set seen from a station", pos, vel, a["seen"], dd)
                ctx.equal("date of the view", c["toe"] + k, a["seen"] and secs(c["w"], a["seen"][4], SCALE[s]), dd)
            else:
                ctx.equal("view without ephemeris", None, a["seen"], dd)
            close(ctx, "relativistic correction", [dtr, rate], a["dtr"], 1e-15, dd)
        ctx.sample(dict(data=q, answer=r))


def check(ctx):
    ctx.mc("Orbit", "Orbit_mcdeep.cfg" if ctx.tier == "thorough" else "Orbit_mc.cfg")
    orbits = ctx.sim("Orbit", "Orbit_sim.cfg", num=ctx.scale(1500, 12000), depth=5)
    ctx.programs = {}
    for c in orbits:
        ctx.programs.setdefault(tuple(c["sv"]), Program(c))
    for s in SCALE:
        if s not in "RS":
            for prn in range(1, 10):
                like = next(c for c in orbits if c["sv"][0] == s and (s != "C" or (6 <= c["sv"][1] < 59) == (prn >= 6)))
                ctx.programs.setdefault((s, prn), Program(like))
    selection(ctx, ctx.mc("Ephem", "Ephem_mc.cfg"))
    selection(ctx, ctx.sim("Ephem", "Ephem_sim.cfg", num=ctx.scale(1500, 15000), depth=30))
    states(ctx, orbits)
    ctx.assumptions += ["messages that announce a week, a toe and the 15 Keplerian elements (GPS LNAV, QZSS LNAV, Galileo, BeiDou D1/D2)",
                        "weeks 1931 to 2290 (37 s of TAI - UTC)", "GLONASS and SBAS states are the broadcast ones: nothing is integrated"]
    return ctx.finish(extra=dict(satellite_states=sum(len(c["tks"]) for c in orbits)))
