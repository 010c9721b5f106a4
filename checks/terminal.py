"""C34, C35: what gr shows on the terminal, and what it never shows (spec: Terminal, Secret)."""
import base64, datetime, hashlib, json, os, re, urllib.parse
from vlib import CheckError
import scen as S
import trace as T
import pi as P

TABLES = [S.table("users", ["id", "name", "email", "age", "todo_id"]), S.table("todos", ["id", "user_id", "title", "status"]),
          S.table("orders", ["id", "a_rather_long_column_name_number_one", "a_rather_long_column_name_number_two"])]
L1, L2 = "a_rather_long_column_name_number_one", "a_rather_long_column_name_number_two"
# queries by the number of their suggestions (roughly; the number itself is not judged)
QUERIES = {0: "SELECT id FROM users WHERE id = 1", 1: "SELECT email FROM users WHERE email = 'a'", 2: "SELECT name FROM users WHERE email = 'a'",
           3: "SELECT u.name, t.id FROM users u INNER JOIN todos t ON u.id = t.user_id WHERE u.email = 'x'", 4: "SELECT name, age FROM users WHERE email = 'a' AND todo_id = 3"}
GQL = "query q { users(where: {email: {_eq: \"a\"}}) { name } }"
TARGETS = ["users:email", "todos:title+status", "users:name+email", "todos:user_id", "users:age", "users:email+name", "orders:%s+%s" % (L2, L1), "orders:" + L1]
OUTS = {"none": ("", ""), "plain": ("out.html", ""), "dot": ("out.html", "./out.html"), "sub": ("a b/c/out.html", "a b/c/out.html"), "up": ("out.html", "sub/../out.html"),
        "abs": ("d/out.html", "{DIR}/d/out.html"), "odd": ("100%d é%s.html", "100%d é%s.html"), "absodd": ("%v/o.htm", "{DIR}//%v/./o.htm"),
        "noparent": ("no/such/out.html", ""), "dir": ("out.html", "")}
ANSI = re.compile(r"\x1b\[[0-9;]*m")
HEAD = re.compile(r"\d{1,2}:\d\d[AP]M (TRC|DBG|INF|WRN|ERR|FTL|PNC) ?(.*)$")   # the AWS SDK writes without a line break at the end


def instant(s):
    return int(datetime.datetime.fromisoformat(s.replace("Z", "+00:00")).timestamp())


def messages(o):
    """(level, first line) of every message on the terminal."""
    res = []
    for l in ANSI.sub("", o["stderr"]).split("\n"):
        m = HEAD.search(l)
        if m:
            res.append([m.group(1), m.group(2)])
    return res


def read(o):
    """The told things."""
    d = {"log": [], "debug": False, "said": [], "cands": [], "exam": {"orig": 0, "tabs": []}, "slow": [], "period": None, "paths": []}

    def say(w):
        if w not in d["said"]:
            d["said"].append(w)

    def ann(k, name="", at=0):
        d["log"].append({"k": k, "name": name, "at": at})
    for lvl, t in messages(o):
        d["debug"] = d["debug"] or lvl in ("DBG", "TRC")
        m = re.match(r"^(Creating|Dropping) index\((.*)\)\.\.\.$", t, re.S)
        if m:
            ann("create" if m.group(1) == "Creating" else "drop", m.group(2))
        elif t == "Executing query...":
            ann("exec")
        elif t == "Start examination...":
            ann("start")
        elif re.match(r"^Getting data for \S+$", t):
            ann("get", "", instant(t.split()[-1]))
        elif t.startswith("Dig traces from "):
            m = re.match(r"^Dig traces from (\S+) to (\S+) taking more than (-?\d+) millis\)$", t)
            d["period"] = (instant(m.group(1)), instant(m.group(2)), int(m.group(3))) if m else ()
        elif t.startswith("Result html is at: "):
            d["paths"].append(t[len("Result html is at: "):])
        elif t == "Found possibly efficient index combinations:":
            say("cands")
        elif t.startswith("No possibly efficient index found"):
            say("nocands")
        elif re.match(r"^\s*\d+\.table: ", t):
            m = re.match(r"^\s*(\d+)\.table: (.*), columns: \[(.*)\]\)$", t)
            if not m or int(m.group(1)) != len(d["cands"]):
                d["cands"].append({"table": "unreadable: " + t, "cols": []})
            else:
                d["cands"].append({"table": m.group(2), "cols": m.group(3).split(", ")})
        elif t == "====RESULT====":
            say("exam")
        elif re.match(r"^Original Time: -?\d+ms$", t):
            d["exam"]["orig"] = int(t.split()[-1][:-2])
        elif t.startswith("==Table: "):
            d["exam"]["tabs"].append({"table": t[9:], "rows": []})
        elif re.match(r"^Time: -?\d+ms ", t):
            m = re.match(r"^Time: (-?\d+)ms \((\S+)% reduced\), Columns\((.*)\)$", t)
            red = m.group(2) if m else "?"
            red = int(red.replace(".", "")) if re.match(r"^-?\d+\.\d$", red) else 0 if d["exam"]["orig"] == 0 else 10 ** 6
            d["exam"]["tabs"][-1]["rows"].append({"ms": int(m.group(1)) if m else -1, "red": red, "cols": m.group(3).split(",") if m else []})
        elif t.startswith("found traces: ----start"):
            say("slow")
        elif re.match(r"^\[[0-9a-f]*\] \"", t):
            m = re.match(r"^\[([0-9a-f]*)\] \"(.*)\" at (.*)$", t, re.S)
            d["slow"].append({"id": m.group(1), "name": m.group(2), "svc": m.group(3)} if m else {"id": t, "name": "", "svc": ""})
    return d


def requests(o, cmd):
    ev = []
    for e in o["events"]:
        if e["kind"] in ("exec", "create", "drop") and cmd in S.BACKENDS:
            ev.append({"k": e["kind"], "name": e["name"] if e["kind"] != "exec" else "", "at": 0})
        elif e["kind"] == "find":
            ev.append({"k": "find", "name": "", "at": e["body"]["min_s"]})
        elif e["kind"] == "pi":
            ev.append({"k": "half", "name": "", "at": int(float(e["body"]["StartTime"]))})
    return ev


def record(s, p, o, dig):
    t = read(o)
    ev = requests(o, p["cmd"])
    r = {"id": s["id"], "panic": o["panic"], "verbose": p["v"], "exit": o["exit"], "file": o["outstate"], "jaeger": p["cmd"] == "jaeger", "suggest": p["cmd"] in S.BACKENDS,
         "examine": p["ex"], "ev": ev, "hasrep": False, "rep": [], "repexam": {"has": False, "orig": 0, "res": []}, "repslow": []}
    want = os.path.normpath(os.path.join(o["dir"], s["out"]))
    r["paths"] = [os.path.isabs(x) and os.path.normpath(x) == want for x in t.pop("paths")]
    per = t.pop("period")
    if per is None:
        r["period"] = "none"
    elif not per:
        r["period"] = "wrong"
    else:
        ok = per[2] == dig["dmin"]
        fs = [e["body"] for e in o["events"] if e["kind"] == "find"]
        if fs:
            ok = ok and per[0] == fs[0]["min_s"]
            if o["exit"] == 0:
                ok = ok and per[1] == fs[-1]["max_s"]
        if dig["start"] is not None:
            ok = ok and per[0] == dig["start"]
        r["period"] = "right" if ok else "wrong"
    r.update(t)
    r["took"] = {"orig": 0, "res": []}
    last = None
    for e in o["events"]:
        if e["kind"] == "create" and r["suggest"]:
            last = {"table": e["table"], "cols": e.get("cols") or [], "lo": 0}
            r["took"]["res"].append(last)
        elif e["kind"] == "exec" and r["suggest"]:
            lo = max(0, (e["t1"] - e["t0"]) // 1000 - 1)
            if last is None:
                r["took"]["orig"] = lo
            else:
                last["lo"] = lo
    rep = o["report"] if isinstance(o["report"], dict) else None
    if rep and r["suggest"]:
        b = S.report_body(o, p["cmd"])
        if b:
            r["hasrep"] = True
            r["rep"] = S.targets_of(b)
            r["repexam"] = S.exam_of(b)
    elif rep and r["jaeger"]:
        j = (rep.get("digData") or {}).get("jaeger")
        if j:
            r["hasrep"] = True
            r["repslow"] = [{"id": x["traceId"], "name": x["root"]["name"], "svc": x["root"]["serviceName"]} for x in j["slowTraces"] or []]
    return r


def tell(ctx, id, p):
    """The scenario of a plan, and what the dig was asked for."""
    r = ctx.rng
    cmd = p["cmd"]
    out, arg = OUTS[p["out"]]
    fl = []
    dig = {"dmin": 1000, "start": None}
    if p["flt"]["k"]:
        k = {"half": "pi", "find": "find"}.get(p["flt"]["k"], p["flt"]["k"])
        nth = p["flt"]["nth"] + (r.choice([0, 2, 9]) if k == "pi" else 0)
        fl.append({"kind": k, "nth": nth, "mode": "http500" if cmd == "hasura" and r.random() < 0.3 else "err"})
    for i, m in enumerate(p["ms"]):
        if m:
            fl.append({"kind": "exec", "nth": i + 1, "mode": "", "ms": m})
    if cmd in S.BACKENDS:
        q = QUERIES[p["n"]]
        tg = r.sample(TARGETS, p["n"]) if p["ex"] and p["n"] and (r.random() < 0.6 or p["n"] > 2 or p["ms"] and max(p["ms"])) else []
        kw = dict(examine=p["ex"], targets=tg, faults=fl, out=out or None)
        s = S.suggest(id, cmd, GQL, TABLES, sql=q, **kw) if cmd == "hasura" else S.suggest(id, cmd, q, TABLES, **kw)
    elif cmd == "pi":
        st = P.BASE + r.choice([0, 1799, r.randrange(10 ** 6)])
        dbs = [{"id": "db-%d" % k, "rid": "db-R%d" % k, "engine": "mysql"} for k in range(r.choice([1, 1, 2]))]
        pts = [{"rid": dbs[0]["rid"], "tok": bool(k % 2), "sql": "SELECT %d" % k, "tid": "T%d" % k, "t": st + 3600 * k, "v": 1.5} for k in range(r.choice([0, 3, 9]))]
        s = P.scen(id, T.rfc3339(r, st) if r.random() < 0.9 else None, dbs, pts, pipage=r.choice([0, 1, 2]), faults=fl, out=out)
    else:
        st = T.BASE + r.choice([0, 1, r.randrange(10 ** 6)])
        dm = r.choice([None, 0, 1, 1500])
        dig = {"dmin": 1000 if dm is None else dm, "start": st}
        n = r.choice([0, 1, 5, 30, 104])
        ch = [T.chunk(r, [dict(par=0, svc=r.choice(["front", "f\"x", "", "a at b", "%s"]), db="", st=0, en=4000 + 4 * r.randrange(500)) for _ in range(1)], k, T.BASE) for k in range(n)]
        for c in ch:
            c["at"] = st + r.randrange(86000)
        frac = r.choice(["", "", ".5", ".999999"])
        start = T.rfc3339(r, st, frac)
        if r.random() < 0.1:
            start, dig["start"] = None, None
        s = T.scen(id, start, ch, dmin=dm, faults=fl, out=out)
    if p["out"] == "noparent":
        s["noparent"] = True
    elif p["out"] == "dir":
        s["outdir"] = True
    if arg:
        s["outarg"] = arg
    if p["v"]:
        s["args"].append(r.choice(["-v", "--verbose"]))
    s["fullerr"] = True
    return s, dig


def c34(ctx):
    r = ctx.rng
    plans = []
    for cmds, cands, outs, times, spots in (('{"mysql", "postgres", "hasura"}', "{0, 1, %d}" % ctx.pick(2, 3), '{"none", "plain"}', "{0, 40}", "{%s}" % ", ".join(map(str, range(1, ctx.pick(8, 11))))),
                                            ('{"mysql", "postgres", "hasura", "jaeger", "pi"}', "{0, 1}", "{%s}" % ", ".join('"%s"' % x for x in OUTS), "{0}", "{1, 2, 3}"),
                                            ('{"postgres"}', "{2}" if not ctx.thorough else "{2, 3, 4}", '{"plain"}', "{7, 33, 90}", "{}")):
        out, _, _ = ctx.tlc("MCTerminal", "SPECIFICATION Spec\nCONSTANTS\n Cmds = %s\n Cands = %s\n Spots = %s\n Outs = %s\n Times = %s\nINVARIANTS Accepted OneAhead Sharp Emit\n" % (cmds, cands, spots, outs, times))
        ps = [json.loads(x) for x in sorted({json.dumps(p, sort_keys=True) for p in ctx.printed_json(out, "TERM")})]
        if not ps:
            raise CheckError("MCTerminal emitted nothing")
        n = ctx.pick(500, 5000)
        plans += ps if len(ps) <= n else r.sample(ps, n)
    ctx.extra["model_plans"] = len(plans)
    for i in range(ctx.pick(60, 800)):   # larger examinations with other times
        n = r.choice([2, 3, 4])
        plans.append({"cmd": r.choice(S.BACKENDS), "ex": True, "n": n, "v": True, "out": r.choice(sorted(OUTS)), "ms": [r.choice([0, 1, 3, 12, 25, 50, 90]) for _ in range(n + 1)], "flt": {"k": "", "nth": 0}})
    for i in range(ctx.pick(30, 300)):
        plans.append({"cmd": "jaeger", "ex": False, "n": 0, "v": r.random() < 0.8, "out": r.choice(sorted(OUTS)), "ms": [], "flt": {"k": "", "nth": 0} if r.random() < 0.7 else {"k": "find", "nth": r.randrange(1, 49)}})
    scs, meta, digs = [], {}, {}
    for i, p in enumerate(plans):
        s, dig = tell(ctx, "t%d" % i, p)
        scs.append(s)
        meta[s["id"]], digs[s["id"]] = p, dig
    res = ctx.drive(scs)
    recs = [record(s, meta[s["id"]], res[s["id"]][0], digs[s["id"]]) for s in scs]
    # the check reads the messages, or it decides nothing
    for k, f in (("log", lambda x: x["log"]), ("cands", lambda x: x["cands"]), ("exam", lambda x: x["exam"]["tabs"]), ("slow", lambda x: x["slow"]), ("path", lambda x: x["paths"])):
        ctx.extra["runs_telling_" + k] = sum(1 for x in recs if f(x))
    ctx.samples += ["%s %s -> log %s, said %s, paths %s" % (x["id"], meta[x["id"]], x["log"][:4], x["said"], x["paths"]) for x in recs[:: max(1, len(recs) // 5)]]
    by = {s["id"]: s for s in scs}
    ctx.judge("JTerminal", recs, {"Prop": '"C34"'}, lambda i: {"plan": meta[i], "args": by[i]["args"], "stderr": ANSI.sub("", res[i][0]["stderr"])[-1500:]})


# ---- C35 ----------------------------------------------------------------------------------------------------------
def secrets(r):
    """Two secrets that nothing else contains."""
    al = "abcdefghijkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ"
    w = lambda n: "".join(r.choice(al) for _ in range(n))
    odd = r.choice(["", "", "'", '"', " ", "@", "\\", "%41", "&a=b", "é", ":/", "</script>"])
    a = w(r.choice([9, 14])) + odd + w(5)
    b = w(r.choice([10, 21])) + odd + w(7)
    return a, b


def writings(s):
    b = s.encode()
    parts = [s, urllib.parse.quote(s, safe=""), urllib.parse.quote_plus(s), json.dumps(s)[1:-1], json.dumps(s, ensure_ascii=False)[1:-1], s.replace("\\", "\\\\").replace("'", "\\'"), s.replace("'", "''"),
             b.hex(), b.hex().upper(), base64.urlsafe_b64encode(b).decode().rstrip("="), s[::-1], s.upper(), s.lower(), s[:8], s[-5:]]
    for k in range(3):   # base64 of a longer text containing it
        e = base64.b64encode(b"x" * k + b).decode().rstrip("=")
        parts.append(e[(2 if k == 1 else 3 if k == 2 else 0):][:-2] if k else e[:-1])
    return sorted({p for p in parts if len(p) >= 5})


def blur(text, o):
    """What differs between two runs anyway: time, ports, the scratch directory, ids."""
    t = ANSI.sub("", text).replace(o["dir"], "DIR")
    t = re.sub(r"0x[0-9a-f]+", "PTR", t)
    t = re.sub(r"\d+", "N", t)
    t = re.sub(r"\bN:N[AP]M\b", "", t)
    return re.sub(r"[-+]?(N|NaN|Inf)(\.N)?(?=%| ?ms)", "N", t)


def digest(x):
    return hashlib.sha256(x.encode()).hexdigest()[:16]


def shown(o):
    return {"exit": o["exit"], "err": digest("\n".join(sorted(blur(o["stderr"], o).split("\n")))), "out": digest(blur(o["stdout"], o)),
            "file": o["outstate"] + digest(blur(json.dumps(o["report"], sort_keys=True, default=str), o)),
            "ev": digest("\n".join("%s %s %s %s %s" % (e["kind"], blur(e["text"], o), blur(json.dumps(e.get("body"), sort_keys=True, default=str), o), e.get("args"), e["outcome"]) for e in o["events"] if e["kind"] not in ("connect", "sslrequest")))}


def c35(ctx):
    r = ctx.rng
    cfg = """SPECIFICATION Spec
CONSTANTS
 Cmds = {"mysql", "postgres", "hasura"}
 Modes = {"err", "close", "badjson", "redirect-same", "redirect-other"}
 Spots = {1, 2, 3, 4, 5, 6, 7, 8}
INVARIANTS Same Sharp Emit
"""
    out, _, _ = ctx.tlc("MCSecret", cfg)
    plans = [json.loads(x) for x in sorted({json.dumps(p, sort_keys=True) for p in ctx.printed_json(out, "SEC")})]
    if len(plans) < 100:
        raise CheckError("MCSecret emitted %d plans" % len(plans))
    ctx.extra["model_plans"] = len(plans)
    pairs = []
    for k in range(ctx.pick(1, 8)):
        for i, p in enumerate(plans):
            be = p["cmd"]
            a, b = secrets(r)
            env = {"DB_USERNAME": r.choice(["user", "us'er"]), "DB_PASSWORD": a} if be != "hasura" else {"HASURA_ADMIN_SECRET": a}
            if be == "hasura" and p["wrong"] != "unreachable" and (i + k) % 3 == 0:   # the secret is the password at the URL
                env = {"HASURA_URL": "http://us%%20er:%s@{ADDR}" % urllib.parse.quote(a, safe="")}
            fl = []
            if p["flt"]["k"]:
                nth = p["flt"]["nth"]
                fl.append({"kind": p["flt"]["k"], "nth": 0 if p["flt"]["k"] == "connect" or p["mode"] == "close" else nth, "mode": p["mode"]})
            srv = {}
            q = QUERIES[2]
            w = p["wrong"]
            if w == "denied":
                if be == "mysql":
                    srv["password"] = "another"
                elif be == "postgres":
                    fl = [{"kind": "connect", "nth": 0, "mode": "err"}]
                else:
                    fl = [{"kind": "explain", "nth": 1, "mode": r.choice(["err", "http500"])}]
            elif w == "bad-param":
                env["DB_PARAM_TEXT"] = r.choice(["timeout=abc", "parseTime=maybe", "%zz=1", "tls=nothere"]) if be == "mysql" else r.choice(["sslmode=bogus", "nonsense", "connect_timeout=abc", "a='b", "port=x"])
            elif w == "unreachable":
                env.update({"mysql": {"DB_ADDRESS": r.choice(["127.0.0.1:1", "nohost.invalid:1"])}, "postgres": r.choice([{"DB_PORT": "1"}, {"DB_PORT": "x"}, {"DB_HOST": "/nowhere"}]),
                            "hasura": {"HASURA_URL": r.choice(["http://127.0.0.1:1", "http://[::1", "ftp://127.0.0.1/", "127.0.0.1"])}}[be])
            elif w == "syntax":
                q = "SELECT name FROM WHERE"
            elif w == "not-select":
                q = "DELETE FROM users"
            both = []
            for x, sec in (("a", a), ("b", b)):
                e = {kk: (sec if v == a else v.replace(urllib.parse.quote(a, safe=""), urllib.parse.quote(sec, safe=""))) for kk, v in env.items()}
                kw = dict(examine=p["ex"], targets=["users:email"] if p["ex"] else [], faults=fl, env=e, server=dict(srv), out="sub/out.html" if w == "no-parent" else "out.html")
                id = "s%d-%d-%s" % (k, i, x)
                s = S.suggest(id, "hasura", GQL, TABLES, sql=q, **kw) if be == "hasura" else S.suggest(id, be, q, TABLES, **kw)
                if w == "no-parent":
                    s["noparent"] = True
                if p["v"]:
                    s["args"].append("-v")
                s["fullerr"] = True
                s["watch"] = writings(sec)
                both.append(s)
            pairs.append((p, both))
    res = ctx.drive([s for _, b in pairs for s in b])
    for k in range(2):   # a difference counts only if it comes again
        again = [b for _, b in pairs if shown(res[b[0]["id"]][0]) != shown(res[b[1]["id"]][0])]
        if again:
            new = ctx.drive([s for b in again for s in b], par=4, name="again%d" % k)
            for b in again:
                if shown(new[b[0]["id"]][0]) == shown(new[b[1]["id"]][0]):
                    for s in b:
                        new[s["id"]][0]["leaks"] += res[s["id"]][0]["leaks"]
                        res[s["id"]] = new[s["id"]]
    recs = []
    auth = 0
    for p, (sa, sb) in pairs:
        oa, ob = res[sa["id"]][0], res[sb["id"]][0]
        auth += any(e["kind"] == "connect" or e.get("header") for e in oa["events"])
        recs.append({"id": sa["id"][:-2], "panic": oa["panic"] or ob["panic"], "leaks": sorted(set(oa["leaks"] + ob["leaks"])), "a": shown(oa), "b": shown(ob)})
    ctx.extra["runs_presenting_the_secret"] = auth
    ctx.samples += ["%s %s -> exit %d" % (x["id"], pairs[i][0], x["a"]["exit"]) for i, x in list(enumerate(recs))[:: max(1, len(recs) // 5)]]
    by = {b[0]["id"][:-2]: (p, b) for p, b in pairs}
    ctx.judge("JSecret", recs, {"Prop": '"C35"'}, lambda i: {"plan": by[i][0], "args": by[i][1][0]["args"], "env": by[i][1][0]["env"],
              "stderr": [ANSI.sub("", res[s["id"]][0]["stderr"])[-1500:] for s in by[i][1]]})
