"""Shared machinery of the checks: build gr and the driver, run scenarios, run TLC, report verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, atexit, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not do its work (never a violation)."""


class Ctx:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER") or "quick"
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED") or 1)
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        atexit.register(lambda: shutil.rmtree(self.work, ignore_errors=True))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.model_runs = []
        self.violations = []
        self.known = []
        self.extra = {}
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- build ------------------------------------------------------------------------------
    def build(self):
        env = dict(os.environ, PATH="/usr/local/go/bin:" + os.environ.get("PATH", ""), HOME=os.environ.get("HOME", "/root"),
                   GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
        d = os.path.join(REPO, "client", "dist", "assets")
        os.makedirs(d, exist_ok=True)   # ignored by git; the embed directive needs one file
        if not os.path.exists(os.path.join(d, ".dummy")):
            open(os.path.join(d, ".dummy"), "w").close()
        rep = {}
        for f in glob.glob(os.path.join(VERIF, "harness", "assets", "*")):
            rep[os.path.join(d, os.path.basename(f))] = f
        for f in glob.glob(os.path.join(VERIF, "harness", "vdrive", "*.go")):
            rep[os.path.join(REPO, "zz_verif", "vdrive", os.path.basename(f))] = f
        ov = os.path.join(self.work, "overlay.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        mod = os.path.join(self.work, "go.mod")
        shutil.copy(os.path.join(REPO, "go.mod"), mod)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(self.work, "go.sum"))
        self.gr = os.path.join(self.work, "gr")
        self.vdrive = os.path.join(self.work, "vdrive")
        for out, pkg in ((self.gr, "."), (self.vdrive, "./zz_verif/vdrive")):
            p = subprocess.run(["go", "build", "-modfile", mod, "-overlay", ov, "-o", out, pkg], cwd=REPO, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise CheckError("build of %s failed:\n%s" % (pkg, p.stdout[-3000:]))
        self.log("built gr and vdrive")

    # ---- drive ------------------------------------------------------------------------------
    def drive(self, scenarios, par=16, name="run"):
        """Runs the scenarios with the real binary; returns {id: [observation, ...]}."""
        inp = os.path.join(self.work, name + ".scn")
        out = os.path.join(self.work, name + ".obs")
        scratch = os.path.join(self.work, "scratch")
        os.makedirs(scratch, exist_ok=True)
        ids = set()
        with open(inp, "w") as f:
            for s in scenarios:
                if s["id"] in ids:
                    raise CheckError("duplicate scenario id " + s["id"])
                ids.add(s["id"])
                f.write(json.dumps(s) + "\n")
        p = subprocess.run([self.vdrive, "-gr", self.gr, "-in", inp, "-out", out, "-scratch", scratch, "-par", str(par),
                            "-assets", os.path.join(VERIF, "harness", "assets")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise CheckError("driver failed: " + p.stderr[-2000:])
        res = {}
        n = 0
        with open(out) as f:
            for line in f:
                o = json.loads(line, parse_float=lambda x: Num(x), parse_int=lambda x: big(x))
                if o.get("drive_err"):
                    raise CheckError("driver: %s: %s" % (o["id"], o["drive_err"]))
                res.setdefault(o["id"], []).append(o)
                n += 1
        os.remove(inp); os.remove(out)
        if set(res) != ids:
            raise CheckError("driver lost scenarios")
        self.log("drove %d runs of gr" % n)
        return res

    # ---- TLC --------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=8, heap="8g", timeout=850, deadlock=False, extra=(), data=None, fpset=False):
        """Runs TLC on spec/<module>.tla; returns (stdout, generated, distinct). Raises CheckError unless it completed
        without error. Property violations of recorded runs are reported by REJECT lines, not by TLC errors."""
        d = os.path.join(self.work, "tlc-" + module + "-%d" % len(self.model_runs))
        os.makedirs(d)
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            shutil.copy(f, d)
        if cfg and "\n" in cfg:
            open(os.path.join(d, module + ".cfg"), "w").write(cfg)
        else:
            shutil.copy(os.path.join(SPEC, (cfg or module) + ".cfg"), os.path.join(d, module + ".cfg"))
        for k, v in (data or {}).items():
            with open(os.path.join(d, k), "w") as f:
                for rec in v:
                    f.write(json.dumps(rec) + "\n")
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", module + ".cfg"]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(extra) + [module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        out = p.stdout
        self.last_dir = d
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        ok = "Model checking completed. No error has been found." in out or ("-simulate" in extra and p.returncode == 0)
        if not ok:
            keep = os.path.join(VERIF, "evidence", "tlc-error-%s.txt" % self.prop)
            os.makedirs(os.path.dirname(keep), exist_ok=True)
            open(keep, "w").write(out)
            raise CheckError("TLC did not complete on %s (see %s):\n%s" % (module, keep, out[-1500:]))
        gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.states += dis
        self.transitions += gen
        self.model_runs.append({"module": module, "distinct_states": dis, "states_generated": gen, "seconds": round(time.time() - t, 1)})
        self.log("TLC %s: %d generated, %d distinct, %.1fs" % (module, gen, dis, time.time() - t))
        return out, gen, dis

    def judge(self, module, recs, consts=None, describe=None, workers=8, heap="8g", timeout=850, extra_data=None):
        """TLC judges every record with spec/<module>.tla; rejected records become violations."""
        if not recs:
            raise CheckError("no records to judge with " + module)
        b = min(64, len(recs))
        cfg = "SPECIFICATION Spec\nCONSTANTS\n Buckets = %d\n" % b
        for k, v in (consts or {}).items():
            cfg += " %s = %s\n" % (k, v)
        data = {"recs.ndjson": recs}
        data.update(extra_data or {})
        out, gen, dis = self.tlc(module, cfg, data=data, workers=workers, heap=heap, timeout=timeout)
        if dis != len(recs) + b:
            raise CheckError("%s judged %d of %d records" % (module, dis - b, len(recs)))
        rej = {}
        for row in self.printed(out, "REJECT"):
            rej.setdefault(row[0], [])
            if row[1:] not in rej[row[0]]:
                rej[row[0]].append(row[1:])
        if "REJECT" in out and not rej:
            raise CheckError("unreadable verdict:\n" + out[-1500:])
        self.traces += len(recs)
        byid = {r["id"]: r for r in recs}
        for i, whys in rej.items():
            d = describe(i) if describe else {}
            for w in whys:
                self.violation("%s: %s" % (i, " ".join(w)), dict({"key": "%s %s" % (i, " ".join(w)), "record": byid.get(i)}, **(d or {})))
        return rej

    def printed_json(self, out, tag):
        """Values printed by PrintT(<<tag, ToJson(x)>>)."""
        res = []
        for m in re.finditer(r'^<<"%s", "((?:[^"\\]|\\.)*)">>$' % re.escape(tag), out, re.M):
            res.append(json.loads(json.loads('"' + m.group(1) + '"')))
        return res

    def printed(self, out, tag):
        """Rows printed by PrintT(<<tag, "a", "b">>) with string members."""
        res = []
        for m in re.finditer(r'<<\s*"%s"((?:,\s*(?:"(?:[^"\\]|\\.)*"|-?\d+|TRUE|FALSE))*)\s*>>' % re.escape(tag), out):
            res.append([json.loads(x) if x[0] == '"' else x for x in re.findall(r'"(?:[^"\\]|\\.)*"|-?\d+|TRUE|FALSE', m.group(1))])
        return res

    # ---- verdicts ---------------------------------------------------------------------------
    def violation(self, why, detail):
        self.violations.append((why, detail))

    def finish(self, level="model_checking", rule=None):
        kf = load_findings().get(self.prop, [])
        fresh = []
        for why, detail in self.violations:
            hit = None
            for k in kf:
                if k.get("status") == "known" and re.search(k["match"], detail.get("key", why)):
                    hit = k
            if hit:
                if hit["id"] not in [k["id"] for k in self.known]:
                    self.known.append(hit)
            else:
                fresh.append((why, detail))
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        for f in glob.glob(os.path.join(ev, "replay-%s-*.json" % self.prop)):
            os.remove(f)
        paths = []
        for n, (why, detail) in enumerate(fresh[:5]):
            p = os.path.join(ev, "replay-%s-%d.json" % (self.prop, n + 1))
            json.dump({"property": self.prop, "why": why, "detail": detail}, open(p, "w"), indent=1, default=str)
            paths.append((why, p))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:6] or ["none"], "tlc_runs": self.model_runs}
        if rule:
            cov["rule"] = rule
        cov.update(self.extra)
        doc = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
               "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(fresh)}
        json.dump(doc, open(os.path.join(ev, self.prop + ".json"), "w"), indent=1, default=str)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.traces == 0 and not fresh:
            raise CheckError("nothing was validated")
        if fresh:
            for why, p in paths:
                print("  ", why)
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        self.log("held on everything explored: %d states, %d runs/traces of the real code" % (self.states, self.traces))
        return 0


class Num(float):
    """A float that remembers how it was written."""
    def __new__(cls, s):
        o = float.__new__(cls, s)
        o.text = s
        return o


def big(s):
    return int(s)


def load_findings():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return {}
    res = {}
    for k in json.load(open(p)):
        if "property" in k:
            res.setdefault(k["property"], []).append(k)
    return res
