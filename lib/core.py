"""What all checks share: building the driver, running TLC, running cases on the real code."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
EVID = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(ROOT, "replays")
KNOWN = os.path.join(ROOT, "known-findings.txt")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 1)


class Broken(Exception):
    """The check itself could not do its work."""


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


_built = {}
_lock = threading.Lock()


def driver(race=False):
    """Builds the driver against /repo's current tree."""
    with _lock:
        if race in _built:
            return _built[race]
        os.makedirs(BUILD, exist_ok=True)
        out = os.path.join(BUILD, "driver-%s-%d" % ("race" if race else "plain", os.getpid()))
        mod = os.path.join(BUILD, "go-%d.mod" % os.getpid())
        shutil.copy(os.path.join(ROOT, "harness", "go.mod"), mod)
        shutil.copy(os.path.join(ROOT, "harness", "go.sum"), mod[:-4] + ".sum")
        cmd = ["go", "build", "-modfile", mod, "-o", out] + (["-race"] if race else []) + ["."]
        p = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=goenv(), capture_output=True, text=True, timeout=800)
        for f in (mod, mod[:-4] + ".sum"):
            try: os.unlink(f)
            except OSError: pass
        if p.returncode != 0:
            raise Broken("the driver does not build:\n" + p.stderr[-3000:])
        _built[race] = out
        return out


def undriver():
    for f in _built.values():
        try: os.unlink(f)
        except OSError: pass
    _built.clear()


TLCRE = re.compile(r"^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", re.M)


def tlc(module, cfg=None, workers=CPUS, env=None, mem="4g", timeout=800, extra=(), onlines=None):
    """Runs TLC. Returns (states, distinct, output lines that the specification printed)."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(2, workers), "-Xmx" + mem, "-Xss256m", "-Djava.io.tmpdir=" + meta,
           "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-fp", "1", "-noGenerateSpecTE", "-config", os.path.join(SPEC, (cfg or module) + ".cfg")]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    printed, other = [], []
    p = subprocess.Popen(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    timer = threading.Timer(timeout, p.kill)
    timer.start()
    try:
        wide = None  # TLC breaks what is wide over several lines
        for line in p.stdout:
            if wide is not None:
                wide += " " + line.strip()
            elif line.startswith("<<\""):
                printed.append(line)
            elif line.startswith("<< \""):
                wide = "<<" + line[3:].strip()
            else:
                other.append(line)
            if wide is not None and wide.count("<<") == wide.count(">>"):
                printed.append(wide[:-2].rstrip() + ">>\n")
                wide = None
        rc = p.wait()
    finally:
        timer.cancel()
        shutil.rmtree(meta, ignore_errors=True)
    text = "".join(other)
    if rc != 0:
        raise Broken("TLC on %s ended with %s:\n%s" % (cfg or module, rc, text[-3500:]))
    m = TLCRE.findall(text)
    if not m:
        raise Broken("TLC on %s gave no statistics:\n%s" % (cfg or module, text[-2000:]))
    g, dist = m[-1]
    return int(g.replace(",", "")), int(dist.replace(",", "")), printed


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        os.makedirs(BUILD, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run", dir=BUILD)
    return _scratch


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


CRASH = {"who": ["?"], "v": "crash", "io": False, "msg": "", "nodes": [], "encs": []}


def exec_shard(cases, tag, race=False, limit=30):
    """Runs a list of case lines on the real code; returns the result lines in order."""
    d = scratch()
    inf = os.path.join(d, "in-%s" % tag)
    outf = os.path.join(d, "out-%s" % tag)
    with open(inf, "w") as f:
        f.writelines(cases)
    open(outf, "w").close()
    done, sync, crashes = 0, False, 0
    env = goenv()
    env["GOTRACEBACK"] = "single"
    if race:
        env["GORACE"] = "halt_on_error=1 exitcode=66"
    while True:
        env["VERIF_SYNC"] = "1" if sync else ""
        p = subprocess.run([driver(race), "exec", "-in", inf, "-out", outf, "-skip", str(done), "-limit", str(limit)],
                           env=env, capture_output=True, text=True, errors="replace", preexec_fn=None if race else limits)
        with open(outf) as f:
            res = f.readlines()
        if res and not res[-1].endswith("\n"):
            res.pop()
        if p.returncode == 0:
            break
        if p.returncode == 4 and "the driver panicked" not in p.stderr:
            raise Broken("the driver failed: " + p.stderr[-2000:])
        if p.returncode != 5:
            # The process died. Run again up to the case that kills it.
            if not sync:
                sync = True
                with open(outf, "w") as f:
                    f.writelines(res)
                done = len(res)
                continue
            c = json.loads(cases[len(res)])
            msg = p.stderr.strip()
            o = dict(CRASH, v="race" if p.returncode == 66 else "crash", msg=(msg[:400] or "exit %d" % p.returncode))
            c["outs"] = [o]
            res.append(json.dumps(c, separators=(",", ":")) + "\n")
            crashes += 1
        else:
            crashes += 1
        with open(outf, "w") as f:
            f.writelines(res)
        done = len(res)
        if done >= len(cases) or crashes >= 8:
            break
    os.unlink(inf)
    os.unlink(outf)
    if len(res) != len(cases) and crashes < 8:
        raise Broken("the driver gave %d results for %d cases" % (len(res), len(cases)))
    return res


def split(xs, n):
    k, out = (len(xs) + n - 1) // n if xs else 0, []
    for i in range(0, len(xs), k or 1):
        out.append(xs[i:i + k])
    return out


def exec_all(cases, race=False, limit=30):
    if not cases:
        return []
    driver(race)
    sh = split(cases, CPUS)
    with cf.ThreadPoolExecutor(CPUS) as ex:
        rs = list(ex.map(lambda t: exec_shard(t[1], t[0], race, limit), enumerate(sh)))
    return [r for x in rs for r in x]


def generate(suite, seed, n, extra=()):
    cmd = [driver(), "gen", "-suite", suite, "-seed", str(seed), "-n", str(n), "-repo", REPO,
           "-lits", os.path.join(ROOT, "harness", "baseline-lits.json")] + list(extra)
    p = subprocess.run(cmd, env=goenv(), capture_output=True, text=True, timeout=300)
    if p.returncode != 0:
        raise Broken("the generator failed: " + p.stderr[-2000:])
    return p.stdout.splitlines(True)


JRE = re.compile(r'^<<"J", (\d+), "(\w+)", \{([^}]*)\}, <<([^>]*)>>')


def judge(module, results, shard=1200, env=None):
    """Lets TLC decide which outcomes the specification allows. Gives, for each result,
    (class, reasons, numbers of the outcomes that are not allowed)."""
    verdicts = [None] * len(results)
    # Big cases first, spread over the shards
    n = max(1, min(CPUS, len(results)), (len(results) + shard - 1) // shard)
    order = sorted(range(len(results)), key=lambda i: -len(results[i]))
    shards = [order[i::n] for i in range(n)]

    def one(k):
        idx = shards[k]
        if not idx:
            return
        path = os.path.join(scratch(), "trace-%s-%d.ndjson" % (module, k))
        with open(path, "w") as f:
            f.writelines(results[i] for i in idx)
        _, _, out = tlc(module, workers=1, env=dict(env or {}, TRACE=path), mem="3g")
        os.unlink(path)
        for line in out:
            m = JRE.match(line)
            if not m:
                raise Broken("cannot read TLC's verdict: " + line[:300])
            why = [w.strip().strip('"') for w in m.group(3).split(",") if w.strip()]
            bad = [int(x) for x in m.group(4).split(",") if x.strip()]
            verdicts[idx[int(m.group(1)) - 1]] = (m.group(2), why, bad)

    with cf.ThreadPoolExecutor(CPUS) as ex:
        list(ex.map(one, range(n)))
    missing = [i for i, v in enumerate(verdicts) if v is None]
    if missing:
        raise Broken("TLC left %d of %d cases undecided" % (len(missing), len(results)))
    return verdicts


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) id=(\S+) case=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


def case(i, c):
    d = {"id": i, "k": "dec", "src": "", "inp": [], "cut": "eof", "ch": [], "with": False, "eps": "all", "outs": []}
    d.update(c)
    return json.dumps(d, separators=(",", ":")) + "\n"


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.validated = self.replayed = self.undecided = 0
        self.parts, self.samples, self.classes = [], [], {}
        self.candidates = []    # (module, case line, why)
        self.violations = []
        self.knowns = []
        self.assumptions = []
        self.level = "model_checking"

    def quick(self, a, b):
        return a if self.tier == "quick" else b

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def late(self):
        """A check on every change has to end in time, whatever the change is"""
        return self.tier == "quick" and time.time() - self.t0 > 420

    # --- the specification itself
    def model(self, name, cfg=None, **kw):
        g, dist, out = tlc(name, cfg, **kw)
        self.states += dist
        self.transitions += g
        self.parts.append({"model": cfg or name, "states": dist, "transitions": g, "vectors": len(out)})
        self.log("model", cfg or name, dist, "states", len(out), "printed")
        return out

    @staticmethod
    def vectors(out):
        """The JSON printed as <<"V", "...">>, without repetitions"""
        seen, vs = set(), []
        for line in out:
            if not line.startswith('<<"V", "'):
                continue
            body = line[len('<<"V", '):line.rindex(">>")].strip()
            if body in seen:
                continue
            seen.add(body)
            vs.append(json.loads(json.loads(body)))
        return vs

    # --- vectors of the decoder: from the specification into the code
    def replay_decoder(self, names, judge_module="TraceDecode"):
        vs = []
        with cf.ThreadPoolExecutor(2) as ex:
            for out in ex.map(lambda n: self.model("MC" + n, workers=CPUS), names):
                vs += self.vectors(out)
        cases = []
        for i, v in enumerate(vs):
            cases.append(json.dumps({"id": i, "k": "dec", "src": "spec:" + v["src"], "inp": v["inp"], "cut": "eof", "ch": [],
                                     "with": False, "eps": "all", "outs": []}, separators=(",", ":")) + "\n")
        res = exec_all(cases)
        again = []
        for v, r in zip(vs, res):
            r_ = json.loads(r)
            if v["ph"] == "ok" and v["same"]:
                ok = all(o["v"] == "ok" and o["nodes"] == v["node"] and o["encs"] and all(e["v"] == "same" for e in o["encs"]) for o in r_["outs"])
                cls = "W"
            elif v["ph"] == "ok":
                ok, cls = None, "K"
            else:
                ok, cls = all(o["v"] == "rej" for o in r_["outs"]), "R"
            self.classes[cls] = self.classes.get(cls, 0) + 1
            if not ok:
                again.append(r)
        self.replayed += len(vs)
        for r in res[:: max(1, len(res) // 2)][:2]:
            self.sample(r)
        if again:
            self.judged(judge_module, again, pool=res)
        self.log("replayed", len(vs), "vectors;", len(again), "left to TLC")

    # --- vectors of the other machines
    def replay(self, names, wrap, module, race=False, limit=30):
        """Behaviours of the models, turned into cases by wrap, run on the code and judged."""
        vs = []
        with cf.ThreadPoolExecutor(2) as ex:
            for name, out in zip(names, ex.map(lambda n: self.model("MC" + n, workers=CPUS), names)):
                for v in self.vectors(out):
                    vs += [dict(c, src="spec:" + name) for c in wrap(v)]
        res = exec_all([case(i, c) for i, c in enumerate(vs)], race, limit)
        k = self.judged(module, res, count=True, race=race)
        self.validated -= k
        self.replayed += k
        for r in res[:: max(1, len(res) // 2)][:2]:
            self.sample(r)
        self.log("replayed", len(vs), "cases")

    def replay_asm(self, names):
        """Uses of a builder. The model says what each call may answer; what is not so is left to TLC."""
        vs = [v for n in names for v in self.vectors(self.model("MC" + n, workers=CPUS))]
        cs = [(v, f) for v in vs for f in ("type", "repr")]
        res = exec_all([case(i, {"k": "asm", "src": "spec:" + names[0], "asm": {"ty": v["ty"], "form": f, "cmds": v["cmds"]}})
                        for i, (v, f) in enumerate(cs)])
        again = []
        for (v, _), r in zip(cs, res):
            rs = json.loads(r).get("res") or []
            ok = len(rs) == len(v["exp"]) or (rs and rs[-1]["r"] == "panic")
            for e, a in zip(v["exp"], rs):
                ok = ok and a["r"] in e["may"] and (a["r"] != "ok" or not e["t"] or a["t"] == e["t"])
            k = "exact" if all(len(e["may"]) == 1 for e in v["exp"]) else "open"
            self.classes[k] = self.classes.get(k, 0) + 1
            if not ok:
                again.append(r)
        self.replayed += len(res)
        for r in res[:: max(1, len(res) // 2)][:2]:
            self.sample(r)
        if again:
            self.judged("TraceAssembler", again, pool=res)
        self.log("replayed", len(res), "cases;", len(again), "left to TLC")

    # --- traces of the decoder: from the code into the specification
    def trace(self, suite, n, module="TraceDecode", race=False, limit=30, seed=None):
        if self.late():
            self.undecided += n
            self.log("no time for", suite)
            return
        res = exec_all(generate(suite, self.seed if seed is None else seed, n), race, limit)
        self.judged(module, res, count=True, race=race)
        for r in res[-2:]:
            self.sample(r)
        self.log("validated", len(res), "recorded cases of", suite)

    def judged(self, module, res, count=False, race=False, pool=None):
        """pool: all the cases that were run, in order, if res are only some of them"""
        pool = res if pool is None else pool
        vd, todo = [], list(res)
        while todo:
            # so much at a time that the clock can be looked at
            k, size = 0, 0
            while k < len(todo) and (size < 48 << 20 or self.tier != "quick"):
                size += len(todo[k])
                k += 1
            vd += judge(module, todo[:k])
            todo = todo[k:]
            if todo and self.late():
                self.undecided += len(todo)
                self.log(len(todo), "cases left undecided: no time")
                break
        res = res[:len(vd)]
        at = None
        for r, (c, why, bad) in zip(res, vd):
            if count:
                k = c + ":" + "+".join(why)
                self.classes[k] = self.classes.get(k, 0) + 1
            if c == "BUG":
                raise Broken("the specification is not lossless on " + r[:500])
            if bad:
                if at is None:
                    at = {id(x): i for i, x in enumerate(pool)}
                self.candidates.append((module, r, c + ":" + "+".join(why), bad, race, pool, at.get(id(r))))
        self.validated += len(res)
        return len(res)

    def sample(self, r):
        if len(self.samples) < 6:
            c = json.loads(r) if isinstance(r, str) else r
            t = json.dumps(c)
            self.samples.append(c if len(t) < 3000 else {"abridged": t[:1500]})

    # --- verdicts
    def confirm(self, limit=6):
        """Runs each suspicious case again, by itself and then after what was run before it in the
        same process, and has TLC look at it again. A case that is fine each time is reported for what
        was recorded the first time, unless that can come from a busy machine."""
        tries = 0
        for module, r, why, bad, race, pool, at in self.candidates[:40]:
            if len(self.violations) >= limit or (self.violations and tries > 12):
                break
            hit = None
            for before in self.histories(pool, at, len(self.violations) > 0):
                tries += 1
                rr = exec_shard([self.clean(x) for x in before] + [self.clean(r)], "confirm", race=race, limit=90)
                if len(rr) <= len(before):
                    continue
                (cl, w, bad2), = judge(module, rr[-1:])
                if bad2:
                    hit = rr[-1], cl + ":" + "+".join(w), bad2, before
                    break
            if hit:
                self.violation(module, hit[0], hit[1], hit[2], race, hit[3])
                continue
            self.log("not reproduced:", r[:300])
            c = json.loads(r)
            busy = module == "TraceMemory" or "died" in why or any(o["v"] in ("hang", "crash") for o in c["outs"])
            if not busy and not self.violations:
                self.violation(module, r, why + " (once)", bad, race, [])

    @staticmethod
    def clean(r):
        c = json.loads(r)
        c["outs"] = []
        c.pop("res", None)
        return json.dumps(c, separators=(",", ":")) + "\n"

    @staticmethod
    def histories(pool, at, short):
        """What to run before a case, from nothing to all that was"""
        yield []
        if at is None:
            return
        k = (len(pool) + CPUS - 1) // CPUS
        start = at // k * k
        n = 1
        while n < at - start and n < 64:
            yield pool[at - n:at]
            n *= 8
        if not short:
            yield []
            yield pool[start:at]
            yield pool[start:at]

    def violation(self, module, r, why, bad, race=False, before=()):
        os.makedirs(REPLAYS, exist_ok=True)
        rec = {"property": self.prop, "module": module, "class": why, "bad": bad, "race": race, "case": json.loads(r),
               "before": [json.loads(self.clean(x)) for x in before][-3000:]}
        h = hashlib.sha1(r.encode()).hexdigest()[:10]
        path = os.path.join(REPLAYS, "%s-%s.json" % (self.prop, h))
        with open(path, "w") as f:
            json.dump(rec, f)
        self.violations.append(path)
        outs = rec["case"].get("outs", [])
        for b in bad[:2]:
            o = outs[b - 1] if b - 1 < len(outs) else {}
            self.log("specification: %s; implementation: %s" % (why, json.dumps(o)[:700]))

    def known(self):
        fs = known_findings(self.prop)
        if not fs:
            return
        by = {}
        for fid, case, what in fs:
            c = json.loads(bytes.fromhex(case)) if case.startswith("7b") else None
            if c is None:
                raise Broken("known finding without a case: " + fid)
            m = c.pop("module", "TraceDecode")
            by.setdefault(m, []).append((fid, json.dumps(dict(c, id=len(by)), separators=(",", ":")) + "\n", what))
        for m, l in by.items():
            res = exec_all([x[1] for x in l])
            vd = judge(m, res)
            for (fid, _, what), r, (c, why, bad) in zip(l, res, vd):
                if bad:
                    self.candidates.append((m, r, "known finding %s, but not as recorded" % fid, bad, False, [], None))
                elif self.still(m, c, why, json.loads(r)):
                    self.knowns.append("%s: %s" % (fid, what))

    @staticmethod
    def still(module, c, why, r):
        """Does the finding still show in the implementation?"""
        res, k = r.get("res"), r["k"]
        if k == "dec" and c == "K":      # accepted, and encoded differently
            return any(o["v"] == "ok" and any(e["v"] == "ok" for e in o["encs"]) for o in r["outs"])
        if k == "dec" and c == "G":      # rejected
            return any(o["v"] == "rej" for o in r["outs"])
        if k == "enc" and c == "K":      # what is not the right answer
            return res["v"] == ("err" if "generictree" in why else "ok")
        if k == "wrong":
            return any(w["v"] == "panic" for w in res)
        if k == "asm":                   # a panic, or a node nevertheless
            return c == "K" and (res[-1]["r"] == "panic" or (r["asm"]["cmds"][-1]["op"] == "build" and res[-1]["r"] == "ok"))
        return c == "K"

    def finish(self):
        self.known()
        self.confirm()
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.validated + self.replayed,
                           "spec_vectors_replayed_into_impl": self.replayed,
                           "impl_traces_checked_by_tlc": self.validated,
                           "cases_left_undecided_for_lack_of_time": self.undecided,
                           "models": self.parts, "classes": self.classes, "samples": self.samples,
                           "known_findings_seen": self.knowns},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.knowns:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for v in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, v))
        self.log("done: %d states, %d vectors, %d traces, %d violations" % (self.states, self.replayed, self.validated, len(self.violations)))
        return 1 if self.violations else 0

    def cleanup(self):
        global _scratch
        if _scratch:
            shutil.rmtree(_scratch, ignore_errors=True)
            _scratch = None
        undriver()


def replay(path):
    rec = json.load(open(path))
    try:
        cs = [json.dumps(c, separators=(",", ":")) + "\n" for c in rec.get("before", [])] + [Run.clean(json.dumps(rec["case"]))]
        r = exec_shard(cs, "replay", race=rec.get("race", False), limit=90)[-1:]
        (cl, why, bad), = judge(rec["module"], r)
        print(json.dumps(json.loads(r[0]).get("res") or json.loads(r[0])["outs"])[:4000])
        print("specification:", cl, why, "outcomes not allowed:", bad)
        if bad:
            print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1 if bad else 0
    finally:
        if _scratch:
            shutil.rmtree(_scratch, ignore_errors=True)
        undriver()


def setup():
    """Builds the driver once, so that what it depends on is in the build cache, and has TLC parse a specification."""
    try:
        driver()
        driver(True)
        g, d, _ = tlc("MCGrowth", workers=2)
        print("ready: TLC explored %d states of MCGrowth" % d)
        return 0
    finally:
        if _scratch:
            shutil.rmtree(_scratch, ignore_errors=True)
        undriver()
