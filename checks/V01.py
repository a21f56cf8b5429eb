"""V01: words of the formats, spec/Vocab.tla."""
C = 299_792_458


def near(a, b):
    return a is not None and abs(a - b) <= 1e-9 * max(abs(b), 1e-12)


def judge(ctx, w, got):
    case = dict(op="words", words=[w])
    what = "%s %r" % (w["kind"], w["text"])
    if isinstance(got, dict) and "panic" in got:
        return ctx.violation(what, dict(expected="an answer", observed=got, case=case))
    k = w["kind"]
    if k != "snrdb" and not w["prints"]:
        return ctx.equal(what, None, got, case)
    if got is None:
        return ctx.equal(what, w["means"], None, case)
    if k in ("carrier", "glo"):
        mhz = int(w["means"]) / (1000 if k == "carrier" else 16)
        return ctx.equal(what, [True, True, True, w["prints"]],
                         [near(got["means"], mhz), near(got["hz"], mhz * 1e6), near(got["wl"], C / (mhz * 1e6)), got["prints"]], dict(case, got=got))
    want = {x: w[x] for x in ("means", "prints", "code", "bad", "weak", "strong", "excellent", "ok", "down") if x in w}
    if k == "snr":
        del want["means"]
        want["same"] = True
    if k == "domes":
        del want["means"]
    if k == "snrdb":
        want = dict(means=w["means"])
    if k == "flag":
        want["ok"] = w["text"] == "0"
    if k == "version":
        a, b = map(int, w["means"].split("."))
        want.update(pair=[a, b], new=True, kept=True, less=max(1, a - 2), up=a + 1)
    ctx.equal(what, want, got, case)


def check(ctx):
    mc = ctx.mc("Vocab", "Vocab_mc.cfg")
    words = [c["word"] for c in mc if "word" in c]
    clocks = [c["clock"] for c in mc if "clock" in c] + [c["clock"] for c in ctx.sim("Vocab", "Vocab_sim.cfg", ctx.scale(500, 20000), 14)]
    answers = ctx.run([dict(op="words", words=words)] + [dict(op="clock", hist=h) for h in clocks])
    for w, got in zip(words, answers[0]):
        judge(ctx, w, got)
    for h, got in zip(clocks, answers[1:]):
        for i, (x, y) in enumerate(zip(h, got)):
            d = x["drift"]
            good = near(y[0], x["off"] * 1e-9) and (y[1] is None if not d else y[1] is not None and abs(y[1] - d[0] * 1e-9 / d[1]) < 1e-15)
            ctx.equal("offset and drift of a clock", True, good, dict(op="clock", hist=h, at=i, got=y))
    for w in words[:: len(words) // 3]:
        ctx.sample(w)
    ctx.sample(clocks[-1])
    kinds = {k: sum(w["kind"] == k for w in words) for k in sorted({w["kind"] for w in words})}
    ctx.assumptions += ["between two documented intervals of signal strength either level is right"]
    return ctx.finish(extra=dict(words=kinds, clocks=len(clocks)))
