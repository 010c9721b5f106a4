"""C36: which AWS is read (spec: Aws, MCAws, JAws)."""
import hashlib, json
from vlib import CheckError
import pi as P

REGIONS = ["us-east-1", "cn-north-1", "ap-northeast-1"]
SECRETS = {"AKENV": "wJalr/env+SECRET=key1", "AKFILE": "file/SECRET+key2==", "AKWORK": "work+SECRET/key3"}
MODES = {"err": "err", "close": "close"}


def data(r, k):
    """databases and points of a week"""
    n = r.choice([1, 1, 2])
    dbs = [{"id": P.NAMES[j], "rid": "db-R%d" % j, "engine": "mysql"} for j in range(n)] + r.choice([[], [{"id": "o", "rid": "db-O", "engine": "postgres"}]])
    pts = [{"rid": "db-R%d" % r.randrange(n), "tok": r.random() < 0.5, "sql": r.choice(P.SQLS), "tid": "ID1", "t": P.BASE + r.randrange(P.WEEK), "v": r.randrange(1, 5000) / 1024, "nots": False} for _ in range(r.choice([0, 3, 12]))]
    return dict(dbs=dbs, points=pts, page=r.choice([0, 1]), pipage=r.choice([0, 1, 2]))


def scen(id, d, s, fault, verbose):
    a = (["-v"] if verbose else []) + ["db", "dig", "performance-insights", "--start-from", "2023-11-14T22:00:00Z", "-o", "{OUT}"] + (["--use-mock"] if s["mock"] else [])
    env, given = {}, {}
    for k, v in (("AWS_REGION", s["reg"]), ("AWS_DEFAULT_REGION", s["def"]), ("AWS_PROFILE", s["prof"])):
        if v:
            env[k] = v
    if s["key"]["id"]:
        env.update(AWS_ACCESS_KEY_ID=s["key"]["id"], AWS_SECRET_ACCESS_KEY=SECRETS[s["key"]["id"]])
        if s["key"]["token"]:
            env["AWS_SESSION_TOKEN"] = s["key"]["token"]
    cf, cr = [], []
    for name in ("default", "work"):
        f = s["files"][name]
        if name == "work" and not s["prof"]:
            continue
        cf.append("[%s]\noutput = json\n" % (name if name == "default" else "profile " + name) + ("region = %s\n" % f["reg"] if f["reg"] else ""))
        if f["id"]:
            cr.append("[%s]\naws_access_key_id = %s\naws_secret_access_key = %s\n" % (name, f["id"], SECRETS[f["id"]]) + ("aws_session_token = %s\n" % f["token"] if f["token"] else ""))
    given[".aws/config"] = "\n".join(cf)
    given[".aws/credentials"] = "\n".join(cr)
    used = s["key"]["id"] or s["files"][s["prof"] or "default"]["id"]
    faults = []
    if fault["mode"] != "none":
        faults = [{"kind": fault["svc"], "nth": 1 if fault["mode"] == "err" else k, "mode": MODES[fault["mode"]]} for k in ((1,) if fault["mode"] == "err" else (1, 2, 3))]
    return {"id": id, "args": a, "env": env, "query": "", "out": "out.html", "given": given, "watch": list(SECRETS.values()),
            "server": {"type": "awswatched" if s["mock"] else "awsreal", "password": SECRETS.get(used, ""), "faults": faults, "aws": d}}


def c36(ctx):
    r = ctx.rng
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Regions = {%s}\n Modes = {\"none\", \"err\", \"close\"}\nINVARIANTS Apart EnvWins Honest Emit\n" % (
        ", ".join('"%s"' % x for x in (REGIONS[:2] if not ctx.thorough else REGIONS)))
    out, _, _ = ctx.tlc("MCAws", cfg)
    plans = [json.loads(x) for x in sorted({json.dumps(p, sort_keys=True) for p in ctx.printed_json(out, "AWS")})]
    if not plans:
        raise CheckError("MCAws emitted nothing")
    ctx.extra["model_plans"] = len(plans)
    groups = {}
    for p in plans:
        k = ("mock" if p["s"]["mock"] else p["res"] if p["res"] == "written" else "unset" if not (p["s"]["mock"] or ((p["s"]["reg"] or p["s"]["def"] or p["s"]["files"][p["s"]["prof"] or "default"]["reg"]) and (p["s"]["key"]["id"] or p["s"]["files"][p["s"]["prof"] or "default"]["id"]))) else "fault", p["fault"]["mode"] != "none")
        groups.setdefault(k, []).append(p)
    scs, meta, refs = [], {}, []
    ds = [data(r, k) for k in range(ctx.pick(6, 30))]
    MOCK = {"reg": "", "def": "", "prof": "", "key": {"id": "", "token": ""}, "mock": True, "files": {n: {"reg": "", "id": "", "token": ""} for n in ("default", "work")}}
    for k, d in enumerate(ds):   # the same data read from the mock, to compare with
        s = scen("ref%d" % k, d, MOCK, {"svc": "rds", "mode": "none"}, False)
        scs.append(s)
        meta[s["id"]] = (MOCK, False, k, s)
    n = {"written": ctx.pick(130, 1800), "mock": ctx.pick(30, 300), "unset": ctx.pick(20, 200), "fault": ctx.pick(24, 300)}
    for (kind, bad), ps in sorted(groups.items()):
        if kind == "unset" and bad:
            continue
        for i, p in enumerate(ps if len(ps) <= n[kind] else r.sample(ps, n[kind])):
            k = r.randrange(len(ds))
            id = "%s%s%d" % (kind, "f" if bad else "", i)
            s = scen(id, ds[k], p["s"], p["fault"], r.random() < 0.4)
            scs.append(s)
            meta[id] = (p["s"], bad, k, s)
    res = ctx.drive(scs)
    h = lambda o: hashlib.sha256(json.dumps(o["report"], sort_keys=True).encode()).hexdigest()[:16] if o["outstate"] == "written" else ""
    ref = [h(res["ref%d" % k][0]) for k in range(len(ds))]
    recs = []
    for id, (st, bad, k, s) in meta.items():
        o = res[id][0]
        reqs, other = [], []
        for e in o["events"]:
            if e["kind"] == "elsewhere":
                other.append(e["path"])
                continue
            pm = e.get("params") or {}
            reqs.append({"svc": e["kind"], "host": e["path"], "conn": pm.get("conn", ""), "key": e.get("user", ""), "token": pm.get("token", ""),
                         "region": pm.get("region", ""), "service": pm.get("service", ""), "sig": e.get("pass", "")})
        # a period has the same shape over and over
        uniq = [json.loads(x) for x in sorted({json.dumps(q, sort_keys=True) for q in reqs})]
        recs.append({"id": id, "s": st, "reqs": uniq, "elsewhere": sorted(set(other)), "faulty": bad and any(e["outcome"] != "ok" for e in o["events"]), "exit": o["exit"], "file": o["outstate"],
                     "rep": h(o), "ref": ref[k], "leaks": o["leaks"], "panic": o["panic"]})
        ctx.count("requests", len(reqs)) if hasattr(ctx, "count") else None
    ctx.samples += [json.dumps([x["s"], x["reqs"][:1], x["exit"]])[:300] for x in recs[:: max(1, len(recs) // 5)]]
    ctx.judge("JAws", recs, {"Prop": '"C36"'}, lambda i: {"scenario": meta[i][3], "stderr": res[i][0]["stderr"][-600:]})
