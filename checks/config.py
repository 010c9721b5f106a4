"""C23: settings and the server (spec: Config, MCConfig, JConfig)."""
import json, re, urllib.parse
from vlib import CheckError
import scen as S
import trace as T

TABLE = S.table("users", ["id", "name", "email", "age"])
QUERY = "SELECT name FROM users WHERE email = 'a'"
GQL = "query { users(where: {email: {_eq: \"a\"}}) { name } }"
RICH = list("aZ0 '\\\"=@:/?#%&+;$!(){}<>|~^[],.*`-_\t\n") + ["é", "日", "\u2028", "\U0001F600", "''", "\\'", "%20", "sslmode=require", " password=x", "&a=b", "@tcp(h)/"]
REQUIRED = {"mysql": ["DB_USERNAME", "DB_DATABASE"], "postgres": ["DB_USERNAME", "DB_DATABASE"], "hasura": ["HASURA_URL", "HASURA_ADMIN_SECRET"],
            "jaeger": ["JAEGER_UI_URL", "JAEGER_GRPC_ADDRESS"]}


def rich(r, lo=1):
    n = r.choice([1, 1, 2, 3, 4, 6, 10, 40])
    s = "".join(r.choice(RICH) for _ in range(max(lo, n)))
    return s.replace("{ADDR}", "").replace("{HOST}", "").replace("{PORT}", "").replace("{URL}", "").replace("{DIR}", "") or "x"


def decoys(r, name, be):
    """Same-named tables of other schemas, whose primary key and index would suppress the candidate."""
    ds = {name + "x", name.upper(), name.lower(), name.strip(), name.strip("'\""), name.replace("'", "''"), "public", "gdb", "mysql", "user", ""} - {name}
    tb = [S.table("users", ["id", "name", "email"], pk=("email",), schema=d) for d in sorted(ds) if d]
    ix = [S.index("users", ["email"], schema=d) for d in sorted(ds) if d]
    return tb, ix


class Gen:
    def __init__(self, ctx):
        self.r, self.scs, self.meta = ctx.rng, [], {}

    def db(self, id, be, user, pw, db, path=None, extra=None, params=(), unusable=False, unix=None, missing=()):
        r = self.r
        env = {"DB_USERNAME": user, "DB_PASSWORD": pw, "DB_DATABASE": db}
        sch = db if be == "mysql" else "public"
        if be == "postgres" and path is not None:
            env["DB_SEARCH_PATH"] = path
            sch = path or "public"
        srv = {}
        if unix is not None:
            srv.update(unix=True, unixdir=unix)
            if be == "mysql":
                env["DB_PROTOCOL"] = "unix"
        elif be == "mysql" and r.random() < 0.3:
            env["DB_PROTOCOL"] = r.choice(["tcp", ""])
        if be == "postgres" and r.random() < 0.3:   # other sources of settings, which must not win
            for k in r.sample(["PGUSER", "PGPASSWORD", "PGDATABASE", "PGHOST", "PGPORT"], 3):
                if k == "PGPASSWORD" and not pw:
                    continue
                env[k] = "1" if k == "PGPORT" else "127.0.0.9" if k == "PGHOST" else "elsewhere"
        env.update(extra or {})
        for m in missing:
            env[m] = r.choice([None, ""])
        dt, di = decoys(r, sch, be)
        s = S.suggest(id, be, QUERY, [dict(TABLE, schema=sch)] + dt, indexes=di, env=env, server=dict(srv, password=pw or ""))
        self.scs.append(s)
        self.meta[id] = (be, {"user": user, "pass": "right" if be == "mysql" else pw or "", "db": db, "secret": "", "segs": [], "query": "", "params": list(params)}, bool(missing), unusable, s)

    def hasura(self, id, segs, secret, query="", slash=False, missing=()):
        url = "{URL}" + "".join("/" + urllib.parse.quote(x, safe=self.r.choice(["", "'()", ":@", "!$&*"])) for x in segs) + ("/" if slash else "") + ("?" + query if query else "")
        env = {"HASURA_URL": url, "HASURA_ADMIN_SECRET": secret}
        for m in missing:
            env[m] = self.r.choice([None, ""])
        s = S.suggest(id, "hasura", GQL, [dict(TABLE, schema="public")], sql=QUERY, env=env, server={"basepath": "".join("/" + x for x in segs)})
        self.scs.append(s)
        self.meta[id] = ("hasura", {"user": "", "pass": "", "db": "", "secret": secret, "segs": list(segs), "query": query, "params": []}, bool(missing), False, s)

    def jaeger(self, id, missing):
        env = {m: self.r.choice([None, ""]) for m in missing}
        s = T.scen(id, "2023-11-14T10:00:00Z", [], env=env)
        self.scs.append(s)
        self.meta[id] = ("jaeger", {"user": "", "pass": "", "db": "", "secret": "", "segs": [], "query": "", "params": []}, bool(missing), False, s)


def effects(be, o, want):
    res = []
    for p in want:
        k, v = p.split("=", 1)
        for e in o["events"]:
            if e["kind"] == "connect" and (e.get("params") or {}).get(k) == v:
                res.append(p)
            if k == "sslmode" and v == "require" and e["kind"] == "sslrequest":
                res.append(p)
            if be == "mysql" and re.search(r"(?i)^\s*set\b.*\b%s\s*=\s*'?%s\b" % (re.escape(k), re.escape(v)), e["text"]):
                res.append(p)
            if be == "mysql" and k == "charset" and re.search(r"(?i)^\s*set\s+names\s+'?%s\b" % re.escape(v), e["text"]):
                res.append(p)
    return res


def record(id, be, want, missing, unusable, o):
    logins, reqs = [], []
    for e in o["events"]:
        if e["kind"] == "connect":
            logins.append({"user": e.get("user", ""), "pass": e.get("pass", ""), "db": e.get("db", "")})
        elif be == "hasura":
            p, _, q = e["rawpath"].partition("?")
            reqs.append({"segs": [urllib.parse.unquote(x) for x in p.split("/")[1:]], "secret": e.get("header", ""), "query": q})
        elif e["kind"] in ("find", "sslrequest") and missing:
            reqs.append({"segs": [], "secret": "", "query": ""})
    b = S.report_body(o, be) if be in S.BACKENDS else None
    own = b is not None and any(t["table"] == "users" and t["cols"] == ["email"] for t in S.targets_of(b))
    return {"id": id, "panic": o["panic"], "missing": missing, "unusable": unusable, "exit": o["exit"], "file": o["outstate"], "logins": logins, "reqs": reqs,
            "want": want, "params": effects(be, o, want["params"]), "own": own}


def c23(ctx):
    r = ctx.rng
    g = Gen(ctx)
    cfg = """SPECIFICATION Spec
CONSTANTS
 MaxLen = %d
 PairLen = %d
 Segs = {"a", "v1", "b c", "x/y", "p%%q", "é+&;"}
 MaxSegs = %d
INVARIANTS RoundTrip Appended Emit
""" % (ctx.pick(3, 5), ctx.pick(2, 3), ctx.pick(2, 4))
    out, _, _ = ctx.tlc("MCConfig", cfg)
    plans = [json.loads(x) for x in sorted({json.dumps(p, sort_keys=True) for p in ctx.printed_json(out, "CFG")})]
    kinds = {k: [p for p in plans if p["kind"] == k] for k in ("one", "two", "path")}
    if not all(kinds.values()):
        raise CheckError("MCConfig emitted nothing of some kind")
    ctx.extra["model_values"] = {k: len(v) for k, v in kinds.items()}
    n = ctx.pick(130, 1500)

    def some(k, m):
        return kinds[k] if len(kinds[k]) <= m else r.sample(kinds[k], m)
    for i, p in enumerate(some("one", n)):
        v = "".join(p["v"])
        for be in ("mysql", "postgres"):
            f = r.randrange(3 if v else 1)
            a = [v if v and f != 0 else "user", v, v if v and f == 2 else "gdb"]
            g.db("o%d-%s" % (i, be), be, *a, path=(v if be == "postgres" and r.random() < 0.4 else None))
    for i, p in enumerate(some("two", n)):
        v, w = "".join(p["v"]), "".join(p["w"])
        be = r.choice(["mysql", "postgres", "postgres"])
        g.db("t%d" % i, be, *r.choice([(v, w, "gdb"), (v, "pw", w), ("user", v, w)]))
    for i in range(ctx.pick(180, 2500)):
        be = r.choice(["mysql", "postgres"])
        unix = None if r.random() < 0.75 else r.choice(["sock", "so ck", "so'ck", "so\\ck", "s=o", "é"]) if be == "postgres" else r.choice(["sock", "so ck", "s=o"])
        g.db("r%d" % i, be, rich(r), rich(r) if r.random() < 0.9 else r.choice(["", None]), rich(r), path=r.choice([None, None, "", rich(r)]), unix=unix)
    for i in range(ctx.pick(60, 600)):
        be = r.choice(["mysql", "postgres"])
        v = "x%d y'z\\" % r.randrange(100) if r.random() < 0.5 else "app%d" % r.randrange(100)
        if be == "postgres":
            t, p, un = r.choice([("application_name='%s'" % v.replace("\\", "\\\\").replace("'", "\\'"), ["application_name=" + v], False),
                                 ("application_name=abc connect_timeout=9", ["application_name=abc"], False),
                                 ("sslmode=require", ["sslmode=require"], True), ("sslmode=disable", [], False),
                                 ("search_path=abc", ["search_path=abc"], False)])
        else:
            t, p, un = r.choice([("sql_mode=ANSI", ["sql_mode=ANSI"], False), ("interpolateParams=true", [], False), ("charset=latin1", ["charset=latin1"], False),
                                 ("interpolateParams=true&sql_mode=ANSI&timeout=30s", ["sql_mode=ANSI"], False), ("parseTime=true", [], False)])
        g.db("p%d" % i, be, rich(r), rich(r), rich(r), extra={"DB_PARAM_TEXT": t}, params=p, unusable=un)
    sec = lambda: "".join(r.choice([x for x in RICH if x not in ("\n", "\t", " ")]) for _ in range(r.choice([1, 3, 8, 60]))).strip() or "s"
    for i, p in enumerate(some("path", n)):
        g.hasura("h%d" % i, p["segs"], r.choice(["secret", sec(), "a b", "é" + sec()]), query=r.choice(["", "", "a=b", "x=%20y&z"]), slash=r.random() < 0.3)
    for i in range(ctx.pick(60, 600)):
        g.hasura("g%d" % i, [], sec(), slash=r.random() < 0.5)
    for be in REQUIRED:
        req = REQUIRED[be]
        for k in range(ctx.pick(3, 12)):
            for m in ([req[0]], [req[1]], req):
                id = "m-%s-%d-%s" % (be, k, "".join("01"[x in m] for x in req))
                if be == "hasura":
                    g.hasura(id, [], "secret", missing=m)
                elif be == "jaeger":
                    g.jaeger(id, m)
                else:
                    g.db(id, be, "user", r.choice(["pw", None]), "gdb", missing=m, extra={"PGUSER": "pg", "PGDATABASE": "pg"} if be == "postgres" else None)
    res = ctx.drive(g.scs)
    recs = [record(s["id"], *g.meta[s["id"]][:4], res[s["id"]][0]) for s in g.scs]
    ctx.samples += [json.dumps([x["want"]["user"], x["want"]["db"], x["logins"][:1], x["reqs"][:1]], ensure_ascii=False)[:300] for x in recs[:: max(1, len(recs) // 5)]]
    ctx.judge("JConfig", recs, {"Prop": '"C23"'}, lambda i: {"env": g.meta[i][4]["env"], "stderr": res[i][0]["stderr"][-400:], "events": [(e["kind"], e["outcome"]) for e in res[i][0]["events"]]})
