"""C19, C20: db dig performance-insights (spec: PI, MCPI, JPI)."""
import json, time, datetime
from fractions import Fraction
from vlib import CheckError
from trace import rfc3339

WEEK = 7 * 86400
BASE = 1700000000 - 1700000000 % 3600


def scen(id, start, dbs, points, page=0, pipage=0, faults=(), env=None, out="out.html", preout=None, args=()):
    a = ["db", "dig", "performance-insights", "--use-mock"]
    if start is not None:
        a += ["--start-from", start]
    a += ["-o", "{OUT}" if out else ""] + list(args)
    e = {k: v for k, v in (env or {}).items() if v is not None}
    s = {"id": id, "args": a, "env": e, "query": "", "out": out or "",
         "server": {"type": "aws", "faults": list(faults), "aws": {"dbs": dbs, "page": page, "pipage": pipage, "points": points}}}
    if preout is not None:
        s["preout"] = preout
    return s


NAMES = ["db-1", "db-2", "prod", "prod-replica", "a", "A", "x"]
SQLS = ["SELECT 1", "select 1", "SELECT * FROM t WHERE a = ?", "SELECT * FROM t WHERE a = ? ", "INSERT INTO t VALUES ('</script>')", "", "SELECT 'é\u2028'", "UPDATE t SET x = 1"]
ZONES = [None, "Asia/Kolkata", "Asia/Kathmandu", "America/St_Johns", "Asia/Tokyo", "UTC"]


def faults_of(r, f, retry=False):
    if not f["at"]:
        return []
    if f["mode"] == "close":   # the SDK repeats a request whose connection was lost
        return [{"kind": f["kind"], "nth": f["at"] + k, "mode": "close"} for k in range(1 if retry else 3)]
    return [{"kind": f["kind"], "nth": f["at"], "mode": f["mode"]}]


class Gen:
    def __init__(self, ctx):
        self.ctx, self.r, self.scs, self.meta = ctx, ctx.rng, [], {}

    def add(self, id, start_s, frac, dbs, points, page, pipage, faults, env=None):
        """start_s: unix second of the start or None; points: dicts db (index), tok, sql, tid, t (unix), v (1/1024, None = no value), nots"""
        r = self.r
        start = None if start_s is None else rfc3339(r, start_s, frac)
        ps = []
        for p in points:
            q = {"rid": dbs[p["db"]]["rid"], "tok": p["tok"], "sql": p["sql"], "tid": p["tid"], "t": p["t"], "nots": p.get("nots", False)}
            if p["v"] is not None:
                q["v"] = p["v"] / 1024
            ps.append(q)
        s = scen(id, start, dbs, ps, page, pipage, faults, env, preout=r.choice([None, "old"]))
        self.scs.append(s)
        self.meta[id] = (start_s, frac, dbs, points, s)

    def random_dbs(self, n):
        r = self.r
        names = r.sample(NAMES, min(n, len(NAMES))) + ["inst-%d" % k for k in range(len(NAMES), n)]
        dbs = [{"id": names[k], "rid": "db-RID%04d" % r.randrange(10 ** 4) + chr(65 + k % 26), "engine": "mysql"} for k in range(n)]
        for k in range(r.choice([0, 0, 1, 2])):
            dbs.insert(r.randint(0, len(dbs)), {"id": "other%d" % k, "rid": "db-OTHER%d" % k, "engine": r.choice(["postgres", "aurora-mysql", "mariadb"])})
        return dbs

    def random_points(self, dbs, lo, n):
        r = self.r
        mine = [k for k, d in enumerate(dbs) if d["engine"] == "mysql"] or [0]
        if not dbs:
            return []
        pts = []
        sqls = r.sample(SQLS, r.choice([1, 2, 4, len(SQLS)]))
        tids = {}
        for _ in range(n):
            t = lo + r.choice([0, 1, WEEK - 1, WEEK - 300, r.randrange(WEEK), r.randrange(WEEK), 43200 * r.randrange(14), min(43200 * r.randrange(1, 15) - 1, WEEK - 1),
                               min(max(0, 3600 * r.randrange(168) + r.choice([0, -1, 1]) - lo % 3600), WEEK - 1)] + [300 * r.randrange(1, 20)] * 4)
            q = r.choice(sqls)
            tok = r.random() < 0.5
            tid = r.choice(["T1", "T2"]) if r.random() < 0.1 else tids.setdefault((q, tok), "ID%d" % len(tids))
            v = r.choice([0, None, 1, 2, 1024, 1025, r.randrange(1, 5000), r.randrange(1, 200000)])
            if self.ctx.prop == "C20" and r.random() < 0.4 and pts:
                t = r.choice(pts)["t"] // 3600 * 3600 + r.randrange(3600)   # several points of one hour
                t = min(max(t, lo), lo + WEEK - 1)
            pts.append({"db": r.choice(mine), "tok": tok, "sql": q, "tid": tid, "t": t, "v": v, "nots": r.random() < 0.03})
        return pts

    def model(self, emit_faults):
        ctx, r = self.ctx, self.r
        modes = '{"err", "close", "badjson"}' if emit_faults else "{}"
        if emit_faults:
            cfgs = [("{0, 1799}", "{0, 1, 2}", "{0, 1}", "{0, 1}", "{0, 1}", "{1, 4}", 0), ("{1800}", "{2}", "{1}", "{0, 1}", "{1}", "{2}", 1)]
            if ctx.thorough:
                cfgs = [("{0, 1799, 3599}", "{0, 1, 2, 3}", "{0, 1}", "{0, 1, 2}", "{0, 1}", "{1}", 0), ("{1800}", "{2}", "{0, 1}", "{0, 1}", "{1, 2}", "{2}", 1)]
        else:
            cfgs = [("{0, 1800}", "{1, 2}", "{0}", "{0}", "{1}", "{1, 2}", 1), ("{1801}", "{1}", "{0}", "{0}", "{0}", "{2}", 2)]
            if ctx.thorough:
                cfgs = [("{0, 1800, 3599}", "{1, 2}", "{0}", "{0}", "{0, 1}", "{1, 2, 3, 4}", 1), ("{1801}", "{1}", "{0}", "{0}", "{1}", "{2, 3}", 2)]
        plans = []
        for o, d, oth, rp, pp, cand, mp in cfgs:
            cfg = ("SPECIFICATION Spec\nCONSTANTS\n Offs = %s\n Dbs = %s\n Others = %s\n RPages = %s\n PPages = %s\n Cand = %s\n MaxPts = %d\n Modes = %s\nINVARIANTS Lemma Emit\n"
                   % (o, d, oth, rp, pp, cand, mp, modes))
            out, _, _ = ctx.tlc("MCPI", cfg)
            plans += ctx.printed_json(out, "PI")
        if not plans:
            raise CheckError("MCPI emitted nothing")
        plans.sort(key=lambda p: json.dumps(p, sort_keys=True))
        ctx.extra["model_plans"] = len(plans)
        n = ctx.pick(350 if emit_faults else 250, 3500)
        for i, p in enumerate(plans if len(plans) <= n else r.sample(plans, n)):
            dbs = [{"id": NAMES[k], "rid": "db-R%d" % k, "engine": "mysql"} for k in range(p["ndb"])] + [{"id": "o%d" % k, "rid": "db-O%d" % k, "engine": "postgres"} for k in range(p["oth"])]
            start = BASE + p["off"]
            pts = [{"db": x["db"] - 1, "tok": x["tok"], "sql": SQLS[x["sql"]], "tid": "ID%d" % x["sql"], "t": BASE + x["t"], "v": x["v"]} for x in p["pts"]]
            self.add("m%d" % i, start, r.choice(["", "", ".5"]) if emit_faults else "", dbs, pts, p["rpage"], p["ppage"], faults_of(r, p["fault"], r.random() < 0.5))

    def run(self):
        ctx = self.ctx
        t0 = time.time()
        res = ctx.drive(self.scs)
        return res, t0, time.time()


def c19(ctx):
    g, r = Gen(ctx), ctx.rng
    g.model(True)
    for i in range(ctx.pick(150, 1500)):
        dbs = g.random_dbs(r.choice([0, 1, 2, 3, 5]))
        st = r.choice([BASE, BASE + r.randrange(10 ** 7), 951782400, 1711846800 - 3 * 86400, 1666494000, BASE - r.randrange(10 ** 8)])
        frac = r.choice(["", "", ".25", ".123456", ".9999"])
        nreq = 28 * max(1, sum(d["engine"] == "mysql" for d in dbs))
        f = []
        if r.random() < 0.4:
            f = faults_of(r, {"at": r.choice([1, r.randint(1, nreq)]), "kind": r.choice(["pi", "pi", "rds"]), "mode": r.choice(["err", "close", "badjson"])}, r.random() < 0.7)
        g.add("r%d" % i, st, frac, dbs, g.random_points(dbs, st, r.choice([0, 3, 40])), r.choice([0, 1, 2, 4]), r.choice([0, 1, 2, 3]), f)
    for i in range(ctx.pick(6, 24)):
        g.add("d%d" % i, None, "", g.random_dbs(r.choice([1, 2])), [], 0, 0, [], {"TZ": ZONES[i % len(ZONES)]})
    res, t0, t1 = g.run()
    recs = []
    for s in g.scs:
        start_s, frac, dbs, points, _ = g.meta[s["id"]]
        o = res[s["id"]][0]
        if start_s is None:
            base = int(t0) - WEEK
            off, off_hi = 0, int((t1 - WEEK - base) * 1000) + 1
        else:
            base = start_s - start_s % 3600
            off = off_hi = (start_s % 3600) * 1000 + (int((frac[1:] + "000")[:3]) if frac else 0)
        rds, reqs, fatal, last = [], [], False, {}
        for e in o["events"]:
            key = (e["kind"], json.dumps(e["body"], sort_keys=True, default=str))
            last[key] = e["outcome"] == "ok"
            ok = e["outcome"] == "ok"
            if e["kind"] == "rds":
                pg = s["server"]["aws"]["page"]
                n = sum(d["engine"] == "mysql" for d in dbs)
                off_ = int((e["body"].get("Marker") or ["0"])[0] or 0)
                rds.append({"page": off_ // pg if pg else 0, "more": bool(pg) and off_ + pg < n, "ok": ok})
            else:
                b = e["body"]
                pp = s["server"]["aws"]["pipage"]
                lo, hi = round(float(b["StartTime"]) * 1000), round(float(b["EndTime"]) * 1000)
                m = b["MetricQueries"]
                grp = m[0].get("GroupBy", {}).get("Group") if m else None
                same = len(m) == 1 and m[0]["Metric"] == "db.load.avg" and grp in ("db.sql", "db.sql_tokenized") and b["ServiceType"] == "RDS" and not m[0].get("Filter")
                tok = grp == "db.sql_tokenized"
                nser = 1 + len({(p["sql"], p["tid"]) for p in s["server"]["aws"]["points"] if p["rid"] == b["Identifier"] and p["tok"] == tok and lo <= p["t"] * 1000 < hi})
                off_ = int(b.get("NextToken") or 0)
                reqs.append({"db": b["Identifier"], "tok": tok, "lo": lo - base * 1000, "hi": hi - base * 1000, "page": off_ // pp if pp else 0, "more": bool(pp) and off_ + pp < nser, "ok": ok, "same": same})
        fatal = not all(last.values())
        recs.append({"id": s["id"], "off": off, "offHi": off_hi, "mine": [d["rid"] for d in dbs if d["engine"] == "mysql"], "rds": rds, "reqs": reqs, "fatal": fatal,
                     "exit": o["exit"], "report": o["outstate"] == "written", "panic": o["panic"]})
    ctx.extra["runs_with_a_failed_request"] = sum(x["fatal"] for x in recs)
    ctx.samples += ["%s: %d databases, %d requests, failed=%s" % (x["id"], len(x["mine"]), len(x["reqs"]), x["fatal"]) for x in recs[:3] + recs[-3:]]
    ctx.judge("JPI", recs, {"Prop": '"C19"'}, lambda i: {"scenario": g.meta[i][4], "stderr": res[i][0]["stderr"][-500:]})


def unit(x):
    """A number of the report in 1/1024, or -1 if it is none."""
    f = Fraction(float(x)) * 1024
    return int(f) if f.denominator == 1 and f < 2 ** 30 else -1


def c20(ctx):
    g, r = Gen(ctx), ctx.rng
    g.model(False)
    for i in range(ctx.pick(300, 2500)):
        dbs = g.random_dbs(r.choice([1, 1, 2, 3]))
        st = r.choice([BASE, BASE + r.randrange(10 ** 7), BASE + 3600 * r.randrange(1000) - 1, 1711846800 - 3 * 86400])
        frac = r.choice(["", "", "", ".5"])
        pts = g.random_points(dbs, st + (1 if frac else 0), r.choice([0, 5, 40, 150]))
        if frac:
            for p in pts:
                p["t"] = min(p["t"], st + WEEK)
        g.add("r%d" % i, st, frac, dbs, pts, r.choice([0, 1]), r.choice([0, 0, 1, 2, 5]), [])
    now = int(time.time()) - WEEK
    for i in range(ctx.pick(18, 60)):
        dbs = g.random_dbs(r.choice([1, 2]))
        pts = [p for p in g.random_points(dbs, now, 40) if now + 600 < p["t"] < now + WEEK]
        g.add("d%d" % i, None, "", dbs, pts, 0, 0, [], {"TZ": ZONES[i % len(ZONES)]})
    res, t0, t1 = g.run()
    recs = []
    for s in g.scs:
        start_s, frac, dbs, points, _ = g.meta[s["id"]]
        o = res[s["id"]][0]
        if start_s is None:
            q = [float(e["body"]["StartTime"]) for e in o["events"] if e["kind"] == "pi"]
            start_s = int(min(q)) if q else int(t0) - WEEK
        base = start_s - start_s % 3600
        j = ((o["report"] or {}).get("digData") or {}).get("performanceInsights") if isinstance(o["report"], dict) else None
        lists = []
        for k in ("sqlDbLoads", "tokenizedSqlDbLoads"):
            l = {"hours": [], "rows": [], "dbOnce": True}
            for h in (j or {}).get(k) or []:
                ms = h["timestamp"] - base * 1000
                hh = ms // 3600000 if ms % 3600000 == 0 else -1
                l["hours"].append(hh)
                names = [d["name"] for d in h["databases"]]
                l["dbOnce"] = l["dbOnce"] and len(set(names)) == len(names)
                for d in h["databases"]:
                    for q in d["sqls"]:
                        l["rows"].append({"h": hh, "db": d["name"], "sql": q["sql"], "sum": unit(q["loadSum"]), "max": unit(q["loadMax"]), "tid": q["tokenizedId"]})
            lists.append(l)
        pts = [{"db": dbs[p["db"]]["id"], "tok": p["tok"], "sql": p["sql"], "tid": p["tid"], "t": p["t"] - base, "v": p["v"] or 0, "ok": p["v"] is not None and not p.get("nots")} for p in points]
        recs.append({"id": s["id"], "off": start_s - base, "pts": pts, "lists": lists, "exit": o["exit"], "report": j is not None, "panic": o["panic"]})
    ctx.extra["points_delivered"] = sum(len(x["pts"]) for x in recs)
    ctx.samples += ["%s: %d points -> %d + %d rows" % (x["id"], len(x["pts"]), len(x["lists"][0]["rows"]), len(x["lists"][1]["rows"])) for x in recs[:3] + recs[-3:]]
    ctx.judge("JPI", recs, {"Prop": '"C20"'}, lambda i: {"scenario": g.meta[i][4], "stderr": res[i][0]["stderr"][-500:]})
