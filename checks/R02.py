"""R02: files of every type, cut anywhere or with a line damaged.  The behaviours of RnxMet, RnxNav, RnxClk, RnxIon, RnxAtx,
RnxDor and RnxCrx say which line completes which entry; what the damage cannot have touched reads as in the file that was written."""
import random
import rnx
from checks import H01, M01, N01, K01, I01, A01, C03, D01
from rnx import line


class Meteo:
    module, depth, num = "RnxMet", 90, 600
    head = staticmethod(lambda c: M01.header(c["cfg"]))
    tail = ()

    def spans(c):
        return [([M01.stamp(e)], end) for e, end in zip(c["epochs"], c["ends"])]

    def entries(c, rec):
        d = {}
        for t, code, v in rec:
            d.setdefault(str([t]), []).append((code, v))
        return {k: sorted(v) for k, v in d.items()}


class Nav:
    module, depth, num = "RnxNav", 120, 600
    head = staticmethod(lambda c: N01.header(c["cfg"]))
    tail = ()

    def spans(c):
        return [(N01.frame(c["cfg"], f)["key"], end) for f, end in zip(c["frames"], c["ends"])]

    def entries(c, rec):
        return {str([f["t"], f["sv"], f["msg"], f["frm"]]): f["v"] for f in rec}


class Clock:
    module, depth, num = "RnxClk", 90, 600
    head = staticmethod(lambda c: K01.header(c["cfg"]))
    tail = ()

    def spans(c):
        return [([p["t"], p["type"], p["name"]], end) for p, end in ((K01.profile(c["cfg"], e), n) for e, n in zip(c["recs"], c["ends"]))]

    def entries(c, rec):
        return {str([p["t"], p["type"], p["name"]]): p for p in rec}


class Ionex:
    module, depth, num = "RnxIon", 700, 400
    head = staticmethod(lambda c: I01.header(c["cfg"], c["maps"]))
    tail = (line("", "END OF FILE"),)

    def spans(c):
        """a map of each kind at its epoch; height maps are not retained"""
        return [([m["kind"], m["t"]], m["end"]) for m in c["maps"]]

    def entries(c, rec):
        d = {}
        # rms is nothing on its own
        for t, la, lo, h, tec, rms in rec:
            at = [round(x, 6) for x in (la, lo, h)]
            d.setdefault(str(["TEC", t[0][:6]]), []).append(at + [tec])
            if rms is not None:
                d.setdefault(str(["RMS", t[0][:6]]), []).append(at + [rms])
        return d


class Antex:
    module, depth, num = "RnxAtx", 800, 300
    head = staticmethod(lambda c: A01.HEADER)
    tail = ()

    def spans(c):
        return [([i], end) for i, end in enumerate(c["ends"])]

    def entries(c, rec):
        # antennas are listed in order and may share a name: told apart by all they hold
        return {i: a for i, a in enumerate(rec)}


class Doris:
    module, depth, num = "RnxDor", 200, 400
    head = staticmethod(lambda c: c["head"])
    tail = ()

    def spans(c):
        return [([D01.stamp(e), str(e["flag"])], end) for e, end in zip(c["epochs"], c["ends"])]

    def entries(c, rec):
        return {str([e["t"], e["flag"]]): e for e in rec}


class Crinex:
    module, depth, num = "RnxCrx", 700, 400
    head = staticmethod(lambda c: C03.header(c["cfg"]))
    tail = ()

    def spans(c):
        w = [rnx.obs_epoch(c["cfg"], e) for e in c["epochs"]]
        return [(list(rnx.key(o)), end) for o, end in zip(w, c["ends"])]

    def entries(c, rec):
        return {str(list(rnx.key(o))): o for o in rec}


JUNK = ["", "????", "*" * 80, " " * 80, "\u00e9\u00e8 \u4e2d\u6587" * 9, "-" * 300, "0", " 99 99 99 99 99 99.9999999", ">", "> ", "1" * 60]


# a file is refused when the epoch or the scaling of a map does not read
BY_DESIGN = [dict(error="ionex scaling exponent"), dict(error="epoch parsing"), dict(error="hifitime error")]


def garble(rng, l):
    r = rng.randint(0, 8)
    p = rng.randint(0, max(0, len(l) - 1))
    if r == 0:
        return rng.choice(JUNK)
    if r == 1:                                  # a character that takes several bytes
        return l[:p] + rng.choice("\u00e9\u4e2d\U0001f600") + l[p + 1:]
    if r == 2:                                  # characters lost
        return l[:p] + l[p + rng.randint(1, 20):]
    if r == 3:
        return l[:p]
    if r == 6:                                  # digits misprinted
        return "".join(rng.choice("0123456789") if x.isdigit() and rng.random() < 0.4 else x for x in l)
    if r == 7:                                  # moved
        return " " * rng.randint(1, 4) + l if rng.random() < 0.5 else l[rng.randint(1, 3):]
    if r == 8:                                  # one digit more
        q = [i for i, x in enumerate(l[:60]) if x.isdigit()]
        return l[:q[0]] + str(rng.randint(1, 99)) + l[q[0]:] if q else l
    if r == 4:                                  # something else written over it
        w = rng.randint(1, 25)
        return l[:p] + "".join(rng.choice("X?*-.E") for _ in range(w)) + l[p + w:]
    return "".join(rng.choice("ABCXYZ0123456789 .-+ED>&") for _ in range(rng.randint(1, 90)))


def happen(rng, k, c):
    """what the specification says happens to the body, as text"""
    ls = c["lines"]
    out = []
    for d in c["damages"]:
        i = d["at"]
        if d["kind"] == "cut":
            out.append((d, ls[:i]))
            if i < len(ls) and ls[i] and not ls[i].rstrip().endswith("COMMENT"):
                out.append((d, ls[:i] + [ls[i][:rng.randint(1, len(ls[i]))]]))
        elif k is Crinex:       # differenced data depend on all that precedes
            continue
        elif d["kind"] == "loss":
            out.append((d, ls[:i] + ls[i + 1:]))
        else:
            out.append((d, ls[:i] + [garble(rng, ls[i])] + ls[i + 1:]))
    return out


def judge(ctx, k, c, d, body, full, got, text):
    kind, at = d["kind"], d["at"]
    spans = k.spans(c)
    safe = [str(spans[i - 1][0]) for i in d["safe"]]
    if k is Antex:
        return antex(ctx, c, d, body, full, got, text)
    if k is Ionex:
        # known finding of I01: a TEC map that no other TEC map follows, and what is attached to it
        last = set()
        begins = [0] + [e for _, e in spans]
        for gone in (False, True):      # the label of the map that follows may be what is damaged
            left = [m for m, b in zip(c["maps"], begins)
                    if (str([m["kind"], m["t"]]) in safe if kind == "cut" else not (gone and b <= at < m["end"]))]
            last |= {str(m["t"]) for m, nx in zip(left, left[1:] + [None]) if m["kind"] == "TEC" and (nx is None or nx["kind"] != "TEC")}
        # an RMS is that of a TEC
        safe = [s for s in safe if s.startswith("['TEC'") or s.replace("RMS", "TEC") in safe]
        safe = [s for s in safe if s in full and not any(s.endswith(t + "]") for t in last)]
    for s in safe:
        if got.get(s) != full.get(s):
            sig = None
            if k is Clock and kind != "cut" and isinstance(got.get(s), dict):
                # the continuation of a lost record after one that declares none
                f, g = dict(full[s]), dict(got[s])
                sig = "undeclared-continuation" if f["v"][:2] == g["v"][:2] and f["v"][2:] == [None] * 4 else None
            ctx.violation("%s: an entry that is whole does not survive a %s" % (k.module, kind),
                          dict(line=at + 1, entry=s, expected=full.get(s), observed=got.get(s), text=text), sig)
            return
    extra = [s for s in got if s not in full and (k is not Ionex or s.startswith("['TEC'"))]
    # a clock record that could not be decoded may be, once cut before what is wrong with it
    if len(extra) > (kind != "cut" or k is Clock):
        ctx.violation("%s: a %s invents an entry" % (k.module, kind), dict(entry=extra[:3], text=text))


def antex(ctx, c, d, body, full, got, text):
    rest = list(got.values())
    for i in [i - 1 for i in d["safe"]]:
        if full[i] not in rest:
            ctx.violation("RnxAtx: an antenna that is whole does not survive a %s" % d["kind"],
                          dict(line=d["at"] + 1, expected=full[i], observed=rest[:2], text=text))
            return
        rest.remove(full[i])
    for a in full.values():     # may have survived as well
        if a in rest:
            rest.remove(a)
    # what is left of a damaged label may be one
    if len(rest) > 1 + (d["kind"] == "damage" and body[d["at"]].rstrip().endswith("START OF ANTENNA")):
        ctx.violation("RnxAtx: a %s invents an antenna" % d["kind"], dict(damage=d, lines=c["lines"], expected=list(full.values()), observed=rest[:3], text=text))


# fields that share a line
LINE = dict(agency="observer", run_by="program", date="program")


def headers(ctx, rng):
    """a damaged header line, or a lost one, costs the field it holds at most"""
    cases = ctx.sim("RnxHdr", "RnxHdr_sim.cfg", ctx.scale(1200, 12000), 220, heap="1g")
    reqs, meta = [], []
    for c in cases:
        ls = c["lines"]
        n = len(ls)
        texts, ds = ["\n".join(ls) + "\n"], []
        for _ in range(6):
            i = rng.randint(0, n - 1)
            kind = rng.choice(["cut", "damage", "damage", "loss", "bytes"])
            if kind == "cut":
                new = ls[:i] + [ls[i][:rng.randint(0, len(ls[i]))]]
            elif kind == "loss":
                new = ls[:i] + ls[i + 1:]
            elif kind == "bytes":       # not valid UTF-8
                p, w = rng.randint(0, 59), rng.randint(1, 6)
                new = ls[:i] + [ls[i][:p] + "".join(chr(rng.randint(160, 255)) for _ in range(w)) + ls[i][p + w:]] + ls[i + 1:]
            else:
                new = ls[:i] + [garble(rng, ls[i])] + ls[i + 1:]
            t = "\n".join(new) + rng.choice(["", "\n"])
            texts.append(dict(latin1=t) if kind == "bytes" else t)
            ds.append((kind, i, ls[i]))
        reqs.append(dict(op="parse_many", header=True, texts=texts))
        meta.append(ds)
    n = 0
    for ds, q, r in zip(meta, reqs, ctx.run(reqs)):
        if "many" not in r:
            ctx.violation("RnxHdr: reading a damaged header does not return: %s" % r, dict(texts=q["texts"]))
            continue
        m = r["many"]
        if "version" not in m[0]:
            ctx.violation("RnxHdr: a well formed header is not read: %s" % m[0], dict(text=q["texts"][0]))
            continue
        full = H01.seen(m[0])
        for (kind, i, l), t, got in zip(ds, q["texts"][1:], m[1:]):
            n += 1
            ctx.cov["comparisons"] += 1
            if "panic" in got:
                ctx.violation("RnxHdr: a header with a %s aborts: %s" % (kind, got["panic"].split(" (")[0]), dict(line=l, text=t, answer=got))
                continue
            if "version" not in got or i == 0 or kind == "cut" or l[60:].strip() == "END OF HEADER":
                continue
            got = H01.seen(got)
            diff = [k for k in full if got.get(k) != full[k]]
            if len({LINE.get(k, k) for k in diff}) > 1:
                ctx.violation("RnxHdr: fields %s do not survive a %s" % (diff, kind), dict(line=l, text=t, full=full, got=got))
    return n


def check(ctx):
    rng = random.Random(ctx.seed)
    done = {}
    ctx.mc("DamageDesign", "DamageDesign_mc.cfg")
    for k in (Meteo, Nav, Clock, Ionex, Antex, Doris, Crinex):
        cases = [c for c in ctx.sim(k.module, k.module + "_sim.cfg", ctx.scale(k.num, 8 * k.num), k.depth, heap="1g") if c["lines"]]
        reqs, meta = [], []
        for c in cases:
            h = k.head(c)
            ds = happen(rng, k, c)
            texts = ["\n".join(h + c["lines"] + list(k.tail)) + "\n"]
            for d, body in ds:
                texts.append("\n".join(h + body + (list(k.tail) if d["kind"] != "cut" else []))
                             + ("\n" if not body or body[-1] == "" else rng.choice(["", "\n"])))
            for i in (rng.randrange(len(h)) for _ in range(2)):
                l = rng.choice([h[i][:rng.randint(0, len(h[i]))], garble(rng, h[i])])
                texts.append("\n".join(h[:i] + [l] + h[i + 1:] + c["lines"] + list(k.tail)) + "\n")
            reqs.append(dict(op="parse_many", texts=texts))
            meta.append((c, ds))
        n = 0
        for (c, ds), q, r in zip(meta, reqs, ctx.run(reqs)):
            if "many" not in r:
                ctx.violation("%s: reading a damaged file does not return: %s" % (k.module, r), dict(texts=q["texts"]))
                continue
            m = r["many"]
            if not isinstance(m[0], list):
                ctx.violation("%s: a well formed file is not read: %s" % (k.module, m[0]), dict(text=q["texts"][0]))
                continue
            full = k.entries(c, m[0])
            for t, got in zip(q["texts"][-2:], m[-2:]):
                ctx.cov["comparisons"] += 1
                if "panic" in got:
                    ctx.violation("%s: a damaged header aborts: %s" % (k.module, got["panic"].split(" (")[0]), dict(text=t, answer=got))
            for (d, body), t, got in zip(ds, q["texts"][1:], m[1:]):
                n += 1
                ctx.cov["comparisons"] += 1
                if k is Ionex and got in BY_DESIGN and d["kind"] != "cut":
                    continue
                if not isinstance(got, list):
                    ctx.violation("%s: a file with a %s is not read: %s" % (k.module, d["kind"], str(got).split(" (")[0]),
                                  dict(line=d["at"] + 1, answer=got, text=t))
                    continue
                judge(ctx, k, c, d, body, full, k.entries(c, got), t)
        done[k.module] = n
    done["RnxHdr"] = headers(ctx, rng)
    ctx.sample(cases[-1]["lines"])
    ctx.assumptions += ["the entry that a cut or a damaged line falls in may be lost, kept in part or misread",
                        "compact observation files are cut, not damaged: every line depends on those before"]
    return ctx.finish(extra=dict(damaged_files=done))
