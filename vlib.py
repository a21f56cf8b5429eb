"""Pipeline shared by all checks: build, TLC, replay, verdict, evidence."""
import json, os, re, shutil, subprocess, sys, time, hashlib, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, ".build")
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    pass


def build():
    """(Re)build the harness against /repo's working tree."""
    env = dict(os.environ)
    env.update(PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + env.get("PATH", ""),
               RUSTUP_TOOLCHAIN="stable", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1",
               CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    os.makedirs(BUILD, exist_ok=True)
    subprocess.run([sys.executable, os.path.join(ROOT, "tools/overlay.py"),
                    os.path.join(BUILD, "overlay")], check=True)
    # cargo trusts mtimes; the sources are reached through links and may have been
    # replaced by files with older stamps, so key the build on their content
    h = hashlib.sha256()
    repo = os.environ.get("VERIF_REPO", "/repo")
    for base in ("src", "db", "build.rs", "Cargo.toml"):
        p = os.path.join(repo, base)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode()); h.update(open(f, "rb").read())
    stamp = os.path.join(BUILD, "stamp")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h.hexdigest():
        fp = os.path.join(BUILD, "target/debug/.fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("rinex-"):
                    shutil.rmtree(os.path.join(fp, d))
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(ROOT, "harness/Cargo.toml")]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise ToolError("harness build failed")
    open(stamp, "w").write(h.hexdigest())
    return os.path.join(BUILD, "target/debug/conform")


def tlc_error(out):
    ls = [l for l in open(out, errors="replace") if not l.startswith('"')]
    i = next((i for i, l in enumerate(ls) if "rror" in l), 0)
    sys.stderr.write("".join(ls[i:i + 25]) + "  ...\n" + "".join(ls[-60:]))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0,
                        cases_generated=0, comparisons=0, tlc_runs=0)
        for f in os.listdir(os.path.join(ROOT, "work", "replay")) if os.path.isdir(os.path.join(ROOT, "work", "replay")) else []:
            if f.startswith(prop + "_"):
                os.unlink(os.path.join(ROOT, "work", "replay", f))
        self.assumptions = []
        self.samples = []
        self.viol = []          # list of (signature, replay path)
        self.nviol = 0
        self.kinds = {}
        self.known_hit = {}
        self.known = [k for k in load_known() if k["property"] == prop]
        self.bin = None
        self.n = 0

    # ---- tiers
    @property
    def quick(self):
        return self.tier == "quick"

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    # ---- TLC
    def _tlc(self, args, tag, heap="4g", stdin=None, timeout=None, env=None, watch=False):
        md = os.path.join(self.work, "md_" + tag)
        os.makedirs(md, exist_ok=True)
        out = os.path.join(self.work, "tlc_" + tag + ".out")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS + ":" + SPEC, "tlc2.TLC",
               "-metadir", md, "-noGenerateSpecTE"] + args
        e = dict(os.environ)
        if env:
            e.update(env)
        with open(out, "w") as f:
            if watch:
                r = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=SPEC, env=e)
                # an evaluation error is final: TLC may take minutes to print the behaviour
                while r.poll() is None:
                    time.sleep(0.2)
                    f.flush()
                    if re.search(r"^Error:", open(out, errors="replace").read(), re.M):
                        r.kill(); r.wait()
                        break
            else:
                r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=SPEC, timeout=timeout, env=e)
        shutil.rmtree(md, ignore_errors=True)
        self.cov["tlc_runs"] += 1
        return r.returncode, out

    @staticmethod
    def _cases(path):
        for line in open(path, errors="replace"):
            if line.startswith('"{') or line.startswith('"['):
                yield json.loads(json.loads(line))

    def _counts(self, path):
        txt = open(path, errors="replace").read()
        m = re.findall(r"^(\d+) states generated, (\d+) distinct", txt, re.M)
        if m:
            self.cov["transitions"] += int(m[-1][0]); self.cov["states"] += int(m[-1][1])
        m = re.findall(r"The number of states generated: (\d+)", txt)
        if m:
            self.cov["transitions"] += int(m[-1]); self.cov["simulated_states"] = self.cov.get("simulated_states", 0) + int(m[-1])

    def mc(self, module, cfg, workers=NPROC, heap="8g"):
        """Exhaustive run; every violated invariant of the specification itself is a tool error."""
        rc, out = self._tlc(["-workers", str(workers), "-config", cfg, module + ".tla"], module + "_mc_" + cfg.replace(".cfg", ""), heap)
        if rc != 0:
            tlc_error(out)
            raise ToolError(f"TLC exhaustive run of {module} with {cfg} failed")
        self._counts(out)
        cs = list(self._cases(out))
        os.unlink(out)
        self.cov["cases_generated"] += len(cs)
        return cs

    def sim(self, module, cfg, num, depth, heap="2g", shards=NPROC):
        """Simulation, sharded over processes with different seeds."""
        num = max(1, num // shards)
        def one(i):
            return self._tlc(["-workers", "1", "-simulate", f"num={num}", "-depth", str(depth),
                              "-seed", str(self.seed * 1000 + i), "-config", cfg, module + ".tla"],
                             f"{module}_{cfg.replace('.cfg','')}_{i}", heap)
        cs = []
        with ThreadPoolExecutor(shards) as ex:
            for rc, out in ex.map(one, range(shards)):
                if rc != 0:
                    tlc_error(out)
                    raise ToolError(f"TLC simulation of {module} with {cfg} failed")
                self._counts(out)
                cs += list(self._cases(out))
                os.unlink(out)
        self.cov["cases_generated"] += len(cs)
        return cs

    def accept(self, module, cfg, traces, tag="trace"):
        """Trace validation: TLC must reach the end of every recorded trace.
        `traces` is a list of JSON values; the module reads them with
        ndJsonDeserialize(IOEnv.TRACES) and PrintTs {"bad": index, ...} for each
        one that is not a behaviour of the specification."""
        if not traces:
            return []
        shards = min(NPROC, len(traces))
        parts = [list(range(i, len(traces), shards)) for i in range(shards)]
        def run(i, js):
            p = os.path.join(self.work, f"{tag}_{i}.ndjson")
            with open(p, "w") as f:
                for j in js:
                    f.write(json.dumps(traces[j]) + "\n")
            return self._tlc(["-workers", "1", "-config", cfg, module + ".tla"], f"{module}_{tag}_{i}", "3g",
                             env={"TRACES": p}, watch=True)
        broken = []
        def one(i):
            rc, out = run(i, parts[i])
            js = parts[i]
            if rc != 0:
                # a trace the specification cannot even evaluate is not one of its
                # behaviours: isolate it (the others of this shard are judged without it)
                while len(js) > 1:
                    h = js[:len(js) // 2]
                    js = h if run(f"{i}b", h)[0] != 0 else js[len(js) // 2:]
                if run(f"{i}b", js)[0] == 0:
                    return i, rc, out
                broken.append(js[0])
                parts[i] = parts[i][:parts[i].index(js[0])]
                if not parts[i]:
                    return i, 0, out
                rc, out = run(i, parts[i])
            return i, rc, out
        bad = []
        with ThreadPoolExecutor(shards) as ex:
            for i, rc, out in ex.map(one, range(shards)):
                if rc != 0:
                    sys.stderr.write("".join(l for l in open(out, errors="replace"))[-4000:])
                    raise ToolError(f"TLC trace validation of {module} failed")
                self._counts(out)
                for b in self._cases(out):
                    b["bad"] = parts[i][b["bad"] - 1]
                    bad.append(b)
        for b in broken:
            bad.append(dict(bad=b, line=0, mode="", err="not a behaviour of the specification", epoch=0))
        self.cov["traces_validated_against_impl"] += len(traces)
        return bad

    # ---- harness
    def run(self, reqs, chunk=None):
        if self.bin is None:
            self.bin = build()
        if not reqs:
            return []
        shards = min(NPROC, max(1, len(reqs) // 50))
        size = (len(reqs) + shards - 1) // shards
        self.n += 1
        def one(i):
            a = os.path.join(self.work, f"req_{self.n}_{i}"); b = os.path.join(self.work, f"rsp_{self.n}_{i}")
            part = reqs[i * size:(i + 1) * size]
            res = []
            # a request that kills the process (abort, stack overflow, endless loop) is
            # isolated: it is answered by {"abort": ...} and the rest is resumed
            while len(res) < len(part):
                with open(a, "w") as f:
                    for r in part[len(res):]:
                        f.write(json.dumps(r) + "\n")
                why = None
                try:
                    p = subprocess.run([self.bin, a, b], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                       timeout=60 + 0.05 * len(part), cwd=self.work)
                    if p.returncode != 0:
                        why = f"exit {p.returncode}"
                except subprocess.TimeoutExpired:
                    why = "timeout"
                got = []
                for l in open(b):
                    if l.endswith("\n"):
                        got.append(json.loads(l))
                if why is None and len(got) != len(part) - len(res):
                    raise ToolError("harness answered short")
                res += got
                if why is not None:
                    if len(res) < len(part):
                        res.append({"abort": why})
            os.unlink(a); os.unlink(b)
            return res
        with ThreadPoolExecutor(shards) as ex:
            out = [r for rs in ex.map(one, range(shards)) for r in rs]
        for r in out:
            if "tool_error" in r:
                raise ToolError(r["tool_error"])
        self.cov["traces_validated_against_impl"] += len(reqs)
        return out

    # ---- verdicts
    def sample(self, x):
        if len(self.samples) < 5:
            self.samples.append(x if len(json.dumps(x)) < 1500 else json.dumps(x)[:1500])

    def violation(self, what, detail, sig=None):
        """`sig` identifies the failing input/call site; listed ones are known findings."""
        for k in self.known:
            if sig is not None and k["signature"] == sig:
                self.known_hit[sig] = k
                return
        self.nviol += 1
        self.kinds[what] = self.kinds.get(what, 0) + 1
        # a few replays of each kind of violation, different kinds first
        if len(self.viol) < 60 and self.kinds[what] <= 3:
            d = os.path.join(ROOT, "work", "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, f"{self.prop}_{self.nviol}.json")
            json.dump(dict(property=self.prop, what=what, signature=sig, detail=detail), open(p, "w"), indent=1)
            self.viol.append((what, p))

    def equal(self, what, expected, got, detail, sig=None):
        self.cov["comparisons"] += 1
        if expected != got:
            self.violation(what, dict(expected=expected, observed=got, case=detail), sig)
            return False
        return True

    def finish(self, level="model_checking", extra=None):
        self.cov["samples"] = self.samples
        if extra:
            self.cov.update(extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=self.nviol)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w"), indent=1)
        for s, k in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        first, rest = [], []
        for what, p in self.viol:
            (rest if any(w == what for w, _ in first) else first).append((what, p))
        for what, p in (first + rest)[:5]:
            print(f"VIOLATION property={self.prop} replay={p}")
            print(f"  {what}")
        for what, n in sorted(self.kinds.items(), key=lambda x: -x[1])[:25]:
            print(f"  {n} times: {what[:160]}")
        print(f"{self.prop} {self.tier}: {self.nviol} violation(s), coverage "
              + json.dumps({k: v for k, v in self.cov.items() if k != 'samples'}) + f" in {ev['wall_s']} s")
        return 1 if self.nviol else 0


def load_known():
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                out.append(json.loads(l))
    return out
