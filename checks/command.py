"""C22: every command as a whole (spec: Command, MCCommand, JCommand)."""
import json, re
from vlib import CheckError
import scen as S
import pi as P
import trace as T

TABLES = [S.table("users", ["id", "name", "email", "age"]), S.table("todos", ["id", "user_id", "title"])]
QUERY = {"mysql": "SELECT name FROM users WHERE email = 'a' AND age = 3", "postgres": "SELECT name FROM users WHERE email = 'a' AND age = 3",
         "hasura": "query Q($e: String) { users(where: {email: {_eq: $e}}) { name } }"}
SQL = "SELECT name FROM users WHERE email = 'a' AND age = 3"
TARGETS = ["users:email", "users:age+name", "todos:title"]
DBS = [{"id": "db-1", "rid": "db-RID1", "engine": "mysql"}]
START = "2023-11-14T10:00:00Z"


def without(args, *flags):
    """Takes a flag and its value out of the arguments."""
    a, i = [], 0
    while i < len(args):
        if args[i] in flags:
            i += 2
            continue
        a.append(args[i])
        i += 1
    return a


def faults(r, cmd, fl):
    res, fa = [], 0
    for f in fl:
        k, nth, m = f["k"], f["nth"], f["mode"]
        if cmd in ("mysql", "postgres"):
            if m == "bad":
                m = "close_after" if k != "connect" else "close"
            if m == "close" and k != "connect" and r.random() < 0.7:   # fails for good only if it is repeated
                res += [{"kind": k, "nth": nth + j, "mode": "close"} for j in range(1, 4)]
            if k == "connect" and r.random() < 0.7:
                nth = 0
        elif cmd == "hasura":
            if m == "bad":
                m = "badjson"
            elif m == "odd":
                m = r.choice(["empty", "null", "nulls", "strings"])
            elif m == "err":
                m = r.choice(["err", "http500"] + (["http200err"] * 2 if k in ("exec", "explain") else []))
        elif cmd == "pi":
            if m == "bad":
                m = "badjson"
            elif m == "odd":
                m = "noname"
            elif m == "close" and r.random() < 0.7:
                res += [{"kind": k, "nth": nth + j, "mode": "close"} for j in range(1, 3)]
        else:
            if m == "bad":
                m, fa = "err", 2
        res.append({"kind": k, "nth": nth, "mode": m})
    return res, fa


def build(r, id, p):
    cmd, cfg, out = p["cmd"], p["cfg"], p["out"]
    fl, fa = faults(r, cmd, p["flt"])
    kw = {}
    o = "" if out == "none" else "sub/dir/out.html" if out == "noparent" else "out.html"
    env = {}
    if cmd in S.BACKENDS:
        q = QUERY[cmd] if p["n"] or r.random() < 0.8 else "SELECT id FROM users" if cmd != "hasura" else QUERY[cmd]
        sql = SQL
        srv = {}
        if cfg == "not-select":
            q = r.choice(["UPDATE users SET name = 'a'", "DELETE FROM users", "INSERT INTO users (name) VALUES ('a')", "SELECT 1; DELETE FROM users"])
        elif cfg == "syntax":
            q = sql = r.choice(["SELEC name FROM users", "SELECT name FROM WHERE", "", "SELECT 'a", "(((("])
            if cmd == "hasura":
                q = QUERY[cmd]
        elif cfg == "no-table":
            q = sql = "SELECT x FROM missing WHERE y = 1"
        elif cfg == "no-column":
            q = sql = "SELECT name FROM users WHERE nothere = 1"
        elif cfg == "two-queries":
            srv["nexplain"] = 2
        elif cfg == "no-queries":
            srv["nexplain"] = 0
        elif cfg == "denied":
            if cmd == "mysql":
                srv["password"] = "another"
            else:
                fl = [{"kind": "connect", "nth": 0, "mode": "err"}]
        if cmd == "hasura" and cfg in ("no-table", "no-column"):
            q = QUERY[cmd]
        env = {"no-user": {"DB_USERNAME": r.choice([None, ""])}, "no-db": {"DB_DATABASE": r.choice([None, ""])}, "no-url": {"HASURA_URL": r.choice([None, "", "http://[::1", "\x7f:"])},
               "no-secret": {"HASURA_ADMIN_SECRET": r.choice([None, ""])},
               "bad-param": {"DB_PARAM_TEXT": r.choice(["timeout=abc", "parseTime=maybe"]) if cmd == "mysql" else r.choice(["sslmode=bogus", "nonsense", "connect_timeout=abc"])},
               "unreachable": {"DB_ADDRESS": "127.0.0.1:1"} if cmd == "mysql" else {"DB_PORT": "1"} if cmd == "postgres" else {"HASURA_URL": "http://127.0.0.1:1"}}.get(cfg, {})
        tg = TARGETS[:p["n"]] if p["ex"] else []
        if cfg == "bad-index":
            tg = tg + [r.choice(["users", "", "users:", ":name", "users:na me", "users name", "us-ers:name"])]
        var = {"bad-variables": r.choice(["{", "", "nope", '{"e": }', "{'e': 1}"]), "bad-variables-list": r.choice(["[1]", '"x"', "1", "true"]),
               "trailing-variables": r.choice(['{} x', '{}{}', '{"e": 1},'])}.get(cfg, '{"e": "a"}' if cmd == "hasura" else None)
        plan = None
        s = S.suggest(id, cmd, q, TABLES, examine=p["ex"], targets=tg, faults=fl, sql=sql, plan=plan, out=o or None, env=env, variables=var, server=srv)
        if cfg == "no-query":
            s["args"] = without(s["args"], "-q")
    elif cmd == "pi":
        s = P.scen(id, {"bad-start": r.choice(["yesterday", "2023-11-14", "2023-11-14 10:00:00Z", "1700000000"])}.get(cfg, START), DBS,
                   [{"rid": "db-RID1", "tok": False, "sql": "SELECT 1", "tid": "T", "t": 1699956000, "v": 1.5}], faults=fl, out=o)
        if cfg == "no-region":
            s["args"].remove("--use-mock")
            s["env"].update({"AWS_EC2_METADATA_DISABLED": "true", "AWS_ACCESS_KEY_ID": "a", "AWS_SECRET_ACCESS_KEY": "b"})
        elif cfg == "unknown-flag":
            s["args"].append("--nonsense")
    else:
        env = {"no-ui": {"JAEGER_UI_URL": r.choice([None, ""])}, "no-grpc": {"JAEGER_GRPC_ADDRESS": r.choice([None, ""])}, "unreachable": {"JAEGER_GRPC_ADDRESS": "127.0.0.1:1"}}.get(cfg, {})
        ch = [T.chunk(r, [dict(par=0, svc="front", db="", st=0, en=4000)], k, T.BASE) for k in range(3)]
        for c in ch:
            c["at"] = 1699956000 + 60
        if fa:
            for c in ch:
                c["at"] += 1800 * (p["flt"][0]["nth"] - 1)
        s = T.scen(id, {"bad-start": r.choice(["yesterday", "2023-11-14", "2023-11-14 10:00:00Z", "1700000000"])}.get(cfg, START), ch, faults=fl, failafter=fa, out=o, env=env)
        if cfg == "no-service":
            s["args"] = without(s["args"], "-s")
        elif cfg == "bad-number":
            s["args"] += [r.choice(["-c", "-d", "-t"]), r.choice(["x", "1.5", "9999999999999999999"])]
    if cfg == "no-output":
        s["args"] = without(s["args"], "-o")
    if out == "old":
        s["preout"] = "old report"
    elif out == "dir":
        s["outdir"] = True
    elif out == "full":
        s["outfull"] = True
    elif out == "noparent":
        s["noparent"] = True
    if r.random() < 0.3:
        s["args"].append("-v")
    s["timeout_ms"] = 40000
    return s


def record(s, p, o):
    ev = []
    for e in o["events"]:
        key = e["text"] + json.dumps(e.get("body"), sort_keys=True, default=str) + json.dumps(e.get("args") or [])
        ev.append({"k": e["kind"], "key": "q" if e["kind"] == "connect" else key, "res": e["outcome"]})
    lines = [l for l in re.sub(r"\x1b\[[0-9;]*m", "", o["stderr"]).splitlines() if l.strip() and not re.search(r"\b(INF|DBG|TRC)\b", l)]
    h = o["html"] or {}
    return {"id": s["id"], "cfg": p["cfg"], "out": p["out"], "ev": ev, "exit": o["exit"], "err": bool(lines), "panic": o["panic"], "hang": o["timed_out"],
            "file": o["outstate"], "whole": bool(h.get("complete") and h.get("data_ok") and h.get("tail_ok") and h.get("scripts") == 2 and h.get("client"))}


def c22(ctx):
    r = ctx.rng
    cfg = """SPECIFICATION Spec
CONSTANTS
 Cmds = {"mysql", "postgres", "hasura", "pi", "jaeger"}
 Cands = {0, 1, %d}
 Spots = %s
 Modes = {"err", "close", "bad", "odd"}
 MaxFaults = %d
 Outs = {"none", "absent", "old", "dir", "full", "noparent"}
INVARIANTS Accepted Sharp ReportLast NothingLeft Emit
""" % (ctx.pick(2, 3), ctx.pick("{1, 2, 17, 28, 29}", "{%s}" % ", ".join(map(str, range(1, 30)))), ctx.pick(1, 2))
    out, _, _ = ctx.tlc("MCCommand", cfg)
    plans = [json.loads(x) for x in sorted({json.dumps(p, sort_keys=True) for p in ctx.printed_json(out, "CMD")})]
    if len(plans) < 100:
        raise CheckError("MCCommand emitted %d plans" % len(plans))
    ctx.extra["model_plans"] = len(plans)
    one = [p for p in plans if len(p["flt"]) < 2]
    two = [p for p in plans if len(p["flt"]) > 1]
    use = (one + one if ctx.thorough else one) + (r.sample(two, min(len(two), 6000)) if two else [])
    if not ctx.thorough:   # pairs of faults that the bound of the model run leaves out
        ok = [p for p in one if p["cfg"] == "ok" and p["flt"]]
        for _ in range(150):
            a = r.choice(ok)
            b = r.choice([x for x in ok if x["cmd"] == a["cmd"] and x["ex"] == a["ex"] and x["n"] == a["n"]])
            use.append(dict(a, flt=a["flt"] + b["flt"]))
    scs, meta = [], {}
    for i, p in enumerate(use):
        s = build(r, "k%d" % i, p)
        scs.append(s)
        meta[s["id"]] = p
    res = ctx.drive(scs)
    recs = [record(s, meta[s["id"]], res[s["id"]][0]) for s in scs]
    ctx.extra["faulted_runs"] = sum(1 for x in recs if any(e["res"] != "ok" for e in x["ev"]))
    ctx.samples += ["%s cfg=%s out=%s faults=%s -> exit %d, file %s" % (p["cmd"], p["cfg"], p["out"], p["flt"], x["exit"], x["file"])
                    for p, x in list(zip(use, recs))[:: max(1, len(recs) // 5)]]
    by = {s["id"]: s for s in scs}
    ctx.judge("JCommand", recs, {"Prop": '"C22"'}, lambda i: {"plan": meta[i], "args": by[i]["args"], "env": by[i]["env"], "faults": by[i]["server"]["faults"], "stderr": res[i][0]["stderr"][-600:]})
