"""W01: conversions, edits, files and gzip files of a data set, spec/Store.tla."""
import rnx

NONE = 9
SLOTS = {"1": ["ABCD00FRA_R_20210630000_01D_30S_MO.rnx", False], "2": ["scratch.txt", False],
         "3": ["WXYZ01DEU_S_20221230000_01H_01S_MO.crx.gz", True], "4": ["aopr0010.17o.gz", True]}
NOBODY = dict(name="", y=0, doy=0, region="", det=[])
MADE = {1: dict(name="ABCD", y=2021, doy=63, region="", det=[dict(batch=0, country="FRA", ppu="01D", src="R", hh=0, mm=0, ffu="30S")]),
        3: dict(name="WXYZ", y=2022, doy=123, region="", det=[dict(batch=1, country="DEU", ppu="01H", src="S", hh=0, mm=0, ffu="01S")]),
        4: dict(name="AOPR", y=2017, doy=1, region="", det=[])}
CODES3 = ["C1C", "L1C", "C2W", "L2W", "D1C", "S1C", "C5Q", "L5Q"]
CODES2 = ["C1", "L1", "P2", "L2", "D1", "S1"]


def stamp(t):
    return [[2021, 3, 4, 5 + t // 3600, t // 60 % 60, t % 60, 0], "GPST"]


def data(kind, ver, r):
    if kind == "meteo":
        rec = [[stamp(e["t"]), s["code"], s["v"] / 1000] for e in r for s in e["sig"]]
        rec = [[[x[0][0], "UTC"]] + x[1:] for x in rec]
        return dict(kind="meteo", version=[3, 4], codes=["PR", "TD", "HR"], record=rec)
    rec = [dict(t=stamp(e["t"]), flag=str(e["flag"]), clk=None,
                sig=[[s["sv"], s["code"], s["v"] / 1000] + [None if s[k] == NONE else s[k] for k in ("lli", "ssi")] for s in e["sig"]]) for e in r]
    codes = CODES2 if ver == 2 else CODES3
    return dict(kind="obs", version=[2, 11] if ver == 2 else [3, 4], constellation="MIXED",
                codes={c: codes for c in ("GPS", "GLO", "GAL")}, first=stamp(0), last=None, interval=30_000_000_000, record=rec)


def rows(kind, r):
    """content of the model, thousandths"""
    if kind == "meteo":
        return sorted([[e["t"], s["code"], s["v"]] for e in r for s in e["sig"]])
    return [[e["t"], e["flag"], sorted([s["sv"], s["code"], s["v"]] + [None if s[k] == NONE else s[k] for k in ("lli", "ssi")] for s in e["sig"])] for e in r]


def second(t):
    d = t[0]
    return (d[3] - 5) * 3600 + d[4] * 60 + d[5] if d[:3] == [2021, 3, 4] and d[6] == 0 else t


def seen(kind, r):
    if kind == "meteo":
        return sorted([second(x[0]), x[1], round(x[2] * 1000)] for x in r)
    return [[second(e["t"]), int(e["flag"]), sorted(s[:2] + [round(s[2] * 1000)] + s[3:] for s in e["sig"])] for e in r]


def state(kind, ver, m):
    return dict(rec=rows(kind, m["rec"]), crinex=dict(plain=None, compact1=1, compact3=3)[m["form"]], compact=m["form"] != "plain",
                name=m["name"] if kind == "obs" else None, prog=m["prog"], version=2 if ver == 2 else 3,
                kind=[kind == "obs", kind == "meteo", False, False, False], made=MADE.get(m["made"], NOBODY))


def observed(kind, s):
    return dict(rec=seen(kind, s["rec"]), crinex=s["crinex"], compact=s["is_crinex"], name=s["name"] if kind == "obs" else None,
                prog="spec" if s["prog"] == "spec" else "tool" if (s["prog"] or "").startswith("rs-rinex") else s["prog"],
                version=s["version"][0], kind=s["is"], made=s["prod"])


def rest(h):
    """the header, whatever the form of the file; revision 2 states its codes for every system, and meteo has no system"""
    h = dict(h, constellation=None if h["meteo"] else h["constellation"])
    if h["obs"]:
        h["obs"] = dict(h["obs"], scaling=sorted(h["obs"]["scaling"], key=str), codes={s: c for s, c in h["obs"]["codes"].items() if s in "GRE"})
    return h


def check(ctx):
    mc = ctx.mc("Store", "Store_mc.cfg" if ctx.quick else "Store_mc4.cfg")
    mc = [c for c in mc if any(o["op"] in ("compress", "restore", "load") for o in c["log"])][:: ctx.scale(2, 3)]
    cases = mc + ctx.sim("Store", "Store_sim.cfg", ctx.scale(3200, 40000), 16, heap="1g")
    reqs = []
    for c in cases:
        ops = []
        for o in c["log"][1:]:
            q = dict(op=o["op"], arg=o["arg"])
            if o["op"] == "put":
                q["data"] = data(c["kind"], c["ver"], o["after"]["rec"])
            if o["op"] == "rename":
                q["name"] = o["after"]["name"]
            ops.append(q)
        m = c["log"][0]["after"]
        reqs.append(dict(op="store", data=data(c["kind"], c["ver"], m["rec"]), name=m["name"], last=stamp(3600), names=SLOTS, ops=ops))
    n = 0
    for c, q, r in zip(cases, reqs, ctx.run(reqs)):
        if "steps" not in r:
            ctx.violation("a sequence of operations failed: %s" % r, q)
            continue
        prev = None
        for i, (o, s) in enumerate(zip(c["log"], r["steps"])):
            what = "%s %s, operation %d" % (o["op"], o["arg"], i)
            n += 1
            if s.get("error"):
                ctx.violation("%s failed: %s" % (what, s["error"]), q)
                break
            want, got = state(c["kind"], c["ver"], o["after"]), observed(c["kind"], s["after"])
            if s.get("left"):
                ctx.equal("what was copied from, after " + what, prev, observed(c["kind"], s["left"]), q)
            prev = want
            ctx.equal("the rest of the header after " + what, rest(r["steps"][0]["after"]["rest"]), rest(s["after"]["rest"]), q)
            if not ctx.equal("the data set after " + what, want, got, q):
                break
    ctx.sample(cases[-1]["log"])
    ctx.assumptions += ["values of three decimals (one for meteo data) that fit their columns", "files that exist are loaded from the kind they were saved as"]
    return ctx.finish(extra=dict(cases=len(cases), exhaustive_cases=len(mc), operations=n))
