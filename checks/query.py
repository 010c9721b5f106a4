"""C06: the user's query, unchanged (spec: Query, MCQuery, JQuery)."""
import json
from decimal import Decimal
from vlib import CheckError, Num
import scen as S

TABLES = [S.table("users", ["id", "name", "email", "age"])]
LIT = ["a", "it''s", "?", "$1", ":name", "%s %d %%", "{{.gr}}", "</script>", "<!--", "é日", "\U0001F600", "a\tb", "a\nb", "a\r\nb", "  x  ", "--", "/* c */", "#", ";", "`", "{OUT}", "$(id)", "a & b", "\\x", "\u2028", "NULL", "0x41"]
GQLS = ["query { users { name } }", "query Q($e: String) {\n  users(where: {email: {_eq: $e}}) { name }\n}\n", "{ users { name } } # comment", "query ($a: Int = 1) { users(limit: $a) { name } }",
        "query {\n\tusers(where: {name: {_like: \"%\\\"x\\\\ é\\u2028%\"}}) {\r\n name } }", "  subscription { users { name } }  ", "query { users(where: {name: {_eq: \"\"\"block ' \" \"\"\"}}) { name } }", "query{a:users{name}}"]


def sql(r, be):
    def lit():
        s = "".join(r.choice(LIT) for _ in range(r.choice([1, 1, 2, 4])))
        if be == "mysql":
            s = s.replace("\\", "\\\\")
            if r.random() < 0.2:
                return '"' + s.replace("''", "'").replace('"', '""') + '"'
        return "'" + s + "'"
    sp = lambda: r.choice([" ", " ", " ", "  ", "\n", "\t", "\r\n", " /* c ' \" ? */ ", " -- it's\n"] + (["\n# x\n"] if be == "mysql" else []))
    q = "%s%sname%sFROM%susers%sWHERE%semail = %s" % (r.choice(["SELECT", "select", "Select"]), sp(), sp(), sp(), sp(), sp(), lit())
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        q += sp() + r.choice(["AND", "and", "OR"]) + sp() + r.choice(["name = " + lit(), "age > %d" % r.randrange(10 ** 6), "name LIKE " + lit(), "age IN (1,%s2)" % sp(), "email <> " + lit()])
    q += r.choice(["", "", "", sp() + "ORDER BY age", sp() + "LIMIT 10", ";", " ; ", " -- end", "\n", "  ", " /* end */"])
    if r.random() < 0.2:
        q = r.choice([" ", "\n", "/* lead */ ", "-- lead\n"]) + q
    if r.random() < 0.03:
        q = q.replace("email =", "email = '%s' OR email =" % ("x" * r.choice([300, 5000, 60000])), 1)
    return q


def jsval(r, d=0):
    k = r.random()
    if d < 3 and k < 0.25:
        return "[" + ",".join(jsval(r, d + 1) for _ in range(r.choice([0, 1, 3]))) + "]"
    if d < 3 and k < 0.5:
        return jsobj(r, d + 1)
    return r.choice(["null", "true", "false", "0", "-0", "1.10", "12345678901234567890", "9007199254740993", "-9223372036854775809", "1e400", "1E-7", "0.1", "123456789.123456789123", str(r.randrange(-10 ** 20, 10 ** 20)),
                     jsstr(r), jsstr(r), jsstr(r)])


def jsstr(r):
    s = "".join(r.choice(LIT + ['"', "\\", "\x01", "\x00", "\x7f"]) for _ in range(r.choice([0, 1, 2, 4])))
    t = json.dumps(s, ensure_ascii=r.random() < 0.5)
    return t.replace("/", "\\/") if r.random() < 0.3 else t


def jsobj(r, d=0):
    ks = []
    for _ in range(r.choice([0, 1, 2, 4])):
        k = jsstr(r) if r.random() < 0.4 else '"%s"' % r.choice(["e", "id", "email", "E", "variables", "query", "a b"])
        if json.loads(k) not in [json.loads(x) for x in ks] and json.loads(k) != "__proto__":
            ks.append(k)
    ws = lambda: r.choice(["", "", " ", "\n", "\t"])
    return "{" + ",".join(ws() + k + ws() + ":" + ws() + jsval(r, d) for k in ks) + "}"


def canon(v):
    """One text per JSON value: members by name, numbers by value."""
    if isinstance(v, dict):
        return "{" + ",".join(json.dumps(k) + ":" + canon(v[k]) for k in sorted(v)) + "}"
    if isinstance(v, list):
        return "[" + ",".join(map(canon, v)) + "]"
    if v is None or isinstance(v, bool) or isinstance(v, str):
        return json.dumps(v)
    d = Decimal(v.text) if isinstance(v, Num) else Decimal(v)
    sign, digits, exp = d.normalize(__import__("decimal").Context(prec=2000)).as_tuple()
    return "n" + ("0" if digits == (0,) else "%s%se%d" % ("-" if sign else "", "".join(map(str, digits)), exp))


def load(t):
    return json.loads(t, parse_float=lambda x: Num(x), parse_int=lambda x: int(x))


def dup(pairs):
    if len({k for k, _ in pairs}) != len(pairs):
        raise ValueError("duplicate")
    return dict(pairs)


def opt(b, *names):
    for x in b.get("examinationCommandOptions") or []:
        if x["name"] in names:
            return x["value"]
    return None


def c06(ctx):
    r = ctx.rng
    cfg = "SPECIFICATION Spec\nCONSTANTS\n MaxLen = %d\n MaxTargets = %d\nINVARIANTS Accepted Sharp PathLemma Emit\n" % (ctx.pick(5, 7), ctx.pick(1, 2))
    out, _, _ = ctx.tlc("MCQuery", cfg)
    plans = [json.loads(x) for x in sorted({json.dumps(p, sort_keys=True) for p in ctx.printed_json(out, "QRY")})]
    if not plans:
        raise CheckError("MCQuery emitted nothing")
    ctx.extra["model_paths"] = len(plans)
    n = ctx.pick(700, 7000)
    use = r.sample(plans, min(n // 2, len(plans)))
    PATHS = ["out.html", "a.b/out", "x.tar.gz", "dir.d/report", "é 日.html", "it's.html", "a b/c.htm", "out_examine.html", "o", "..x", "x.", "q?.html", "50%.html", "a\\b.html"]
    while len(use) < n:
        ex = r.random() < 0.6
        use.append({"path": list(r.choice(PATHS)), "examined": ex, "n": r.choice([0, 1, 2]) if ex else 0})
    scs, meta = [], {}
    for i, p in enumerate(use):
        be = r.choice(["mysql", "postgres", "hasura", "hasura"])
        id, path = "q%d" % i, "".join(p["path"])
        var, gsql = None, None
        if be == "hasura":
            q = r.choice(GQLS) if r.random() < 0.5 else "query { users(where: {name: {_eq: %s}}) { name } } # %s" % (jsstr(r), "".join(r.choice(LIT) for _ in range(3)))
            q = q.replace("\x00", "")
            gsql = sql(r, "postgres")
            var = r.choice([None, "null", "{}", " { } "]) if r.random() < 0.1 else jsobj(r)
        else:
            q = sql(r, be)
        s = S.suggest(id, be, q, TABLES, examine=p["examined"], targets=["users:age", "users:name+age"][:p["n"]], sql=gsql, out=path, variables=var)
        scs.append(s)
        meta[id] = (be, q, gsql, var, p, s)
    res = ctx.drive(scs)
    recs = []
    for s in scs:
        be, q, gsql, var, p, _ = meta[s["id"]]
        o = res[s["id"]][0]
        want = canon(load(var if var is not None else "{}")) if be == "hasura" else ""
        ev = []
        for e in o["events"]:
            if e["kind"] in ("connect", "columns", "indexes", "create", "drop"):
                continue
            v = ""
            if be == "hasura":
                b = e.get("body") or {}
                b = b.get("query") if e["kind"] == "explain" else b
                v = canon((b or {}).get("variables")) if isinstance(b, dict) else "?"
            ev.append({"k": e["kind"], "same": e["same"], "vars": v})
        b = S.report_body(o, be) or {}
        rq = b.get("gql") if be == "hasura" else b.get("query")
        ov = opt(b, "json-variables") if be == "hasura" else None
        try:
            ov = "" if be != "hasura" else "missing" if ov is None else canon(load(ov))
        except ValueError:
            ov = "unreadable"
        recs.append({"id": s["id"], "panic": o["panic"], "exit": o["exit"], "examined": p["examined"], "ev": ev, "query": q, "sql": gsql or "", "vars": want, "path": p["path"],
                     "rep": {"query": rq if rq is not None else "\x00missing", "sql": (b.get("query") if be == "hasura" else "") if b else "", "vars": canon(b.get("gqlVariables")) if be == "hasura" else ""},
                     "opt": {"query": opt(b, "q", "query") or "", "vars": ov, "path": list(opt(b, "o", "output") or "")}})
    ctx.samples += ["%s -o %s: %s" % (meta[x["id"]][0], "".join(x["path"]), x["query"][:80]) for x in recs[:: max(1, len(recs) // 5)]]
    ctx.judge("JQuery", recs, {"Prop": '"C06"'}, lambda i: {"args": meta[i][5]["args"], "stderr": res[i][0]["stderr"][-500:], "events": [(e["kind"], e["same"], e["text"][:200]) for e in res[i][0]["events"]]})
