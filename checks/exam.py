"""C01-C05: what a suggest command does to the server (spec: Examine, History, JExamine)."""
import json, os, re
from scen import *
from vlib import CheckError

T = [table("users", ["id", "name", "email", "age", "todo_id"]),
     table("todos", ["id", "user_id", "title", "name", "status"]),
     table("very_long_table_name_for_the_orders_of_customers", ["id", "a_rather_long_column_name_number_one", "a_rather_long_column_name_number_two", "c"]),
     table("odd", ["id", "first name", "ok", "name"]),
     table("Mixed", ["id", "Kind"])]
ODDT = ["my-tab", "two words", "naïve", "a'; drop table users; --", "b') or ('' = '", "100%s", "c\\'; delete from users; #", "?", ":x", "$1"]
T += [table(t, ["id", "name", "ok"]) for t in ODDT]
L1, L2 = "a_rather_long_column_name_number_one", "a_rather_long_column_name_number_two"
POOL = ["users:email", "users:name+email", "todos:name", "users:name", "todos:title+status+user_id", "todos:user_id",
        "very_long_table_name_for_the_orders_of_customers:%s+%s" % (L1, L2),
        "very_long_table_name_for_the_orders_of_customers:%s+%s" % (L1, L2) + "+c",
        "very_long_table_name_for_the_orders_of_customers:%s" % L2, "users:email+name", "users:id", "todos:status",
        "users:email", "users:age+name+email+todo_id+id", "todos:a_1", "Mixed:Kind", "u1_:c_9", "users:_x", "0:0"]
# queries with a known small number of suggestions (the number itself is not judged here)
QUERIES = {0: "SELECT id FROM users WHERE id = 1",
           1: "SELECT email FROM users WHERE email = 'a'",
           2: "SELECT name FROM users WHERE email = 'a'",
           3: "SELECT u.name, t.id FROM users u INNER JOIN todos t ON u.id = t.user_id WHERE u.email = 'x'",
           4: "SELECT name, age FROM users WHERE email = 'a' AND todo_id = 3"}
ODDQ = {"mysql": "SELECT `ok` FROM odd WHERE `first name` = 'x' AND `name` = 'y'"}
ODDQ["postgres"] = ODDQ["hasura"] = ODDQ["mysql"].replace("`", '"')


def oddtq(be):
    """Queries reading a table whose name does not consist of word characters."""
    res = []
    for t in ODDT:
        q = "SELECT o.`ok` FROM `%s` o JOIN users u ON u.name = o.name WHERE u.email = 'x'" % t
        res += [q, "SELECT name FROM `%s` WHERE ok = 1" % t]
    return res if be == "mysql" else [q.replace("`", '"') for q in res]


GQL = "query q { users(where: {email: {_eq: \"a\"}}) { name } }"


def parse_i(s):
    t, c = s.split(":")
    return {"table": t, "cols": c.split("+")}


def scenario(id, be, q, **kw):
    if be == "hasura":
        return suggest(id, be, GQL, T, sql=q, **kw)
    return suggest(id, be, q, T, **kw)


def model(ctx, maxt, maxf):
    cfg = """SPECIFICATION Spec
CONSTANTS
 Backends = {"mysql", "postgres", "hasura"}
 MaxTargets = %d
 MaxFaults = %d
INVARIANTS TypeOK InvC01 InvC02 InvC03 InvC04 InvC05 Emit
%s""" % (maxt, maxf, "PROPERTY Terminates\n" if maxt * maxf <= 4 else "")
    out, _, _ = ctx.tlc("MCExamine", cfg)
    scn = ctx.printed_json(out, "SCN")
    if not scn:
        raise CheckError("the model emitted no scenario")
    plans = {}
    for s in scn:
        key = (s["be"], s["ex"], s["n"], tuple(sorted((f["kind"], f["nth"], f["mode"]) for f in s["plan"])))
        plans.setdefault(key, set()).add((tuple((a, b, c) for a, b, c in s["h"]), s["result"]))
    return plans


DELAYS = (0, 7, 35, 90, 18, 60)


def from_plan(ctx, n, key, delays):
    """One concrete scenario for a fault plan of the model."""
    be, ex, nt, faults = key
    r = ctx.rng
    fl = [{"kind": k, "nth": i, "mode": m} for k, i, m in faults]
    if be == "hasura":
        for f in fl:
            if f["mode"] == "err" and f["kind"] == "exec" and r.random() < 0.5:
                f["mode"] = "http200err"
            elif f["mode"] == "err" and f["kind"] != "exec" and r.random() < 0.4:
                f["mode"] = r.choice(["http500", "badjson"])
    if delays:
        ds = [r.choice(DELAYS) for _ in range(nt + 1)]
        for i, d in enumerate(ds):
            if d:
                fl.append({"kind": "exec", "nth": i + 1, "mode": "", "ms": d})
        if r.random() < 0.3:
            fl.append({"kind": r.choice(["create", "drop"]), "nth": 0, "mode": "", "ms": 25})
    use_i = nt > 0 and r.random() < 0.6
    tg = []
    q = QUERIES.get(nt, QUERIES[1])
    if use_i:
        tg = [r.choice(POOL) for _ in range(nt)]
        q = QUERIES[r.choice([1, 2, 3])]
    pre = r.choice([None, None, "<old>"])
    sc = scenario("p%d" % n, be, q, examine=ex, targets=tg, faults=fl, preout=pre)
    return sc, {"be": be, "ex": ex, "tg": tg, "key": key}


def record(o, m):
    be = m["be"]
    b = report_body(o, be)
    return {"id": o["id"], "be": be, "ex": m["ex"], "h": events(o), "left": live(o["live"]), "exit": o["exit"], "out": o["outstate"],
            "rep": exam_of(b), "texit": o["texit"], "single": m.get("single", True), "valid": m.get("valid", True),
            "must": m.get("must", False), "given": bool(m["tg"]),
            "want": [parse_i(t) for t in m["tg"]] if m["tg"] and m.get("valid", True) else
                    [t for t in targets_of(b) if re.fullmatch(r"[0-9A-Za-z_]+", t["table"]) and
                     all(re.fullmatch(r"[0-9A-Za-z_]+", c) for c in t["cols"])] if b else m.get("free", [])}


def extra_scenarios(ctx):
    """Shapes beyond the model's bounds: many targets, long and odd names, slow statements, no output file."""
    r = ctx.rng
    res = []

    def add(be, q, ex=True, tg=(), faults=(), **kw):
        sc = scenario("x%d" % len(res), be, q, examine=ex, targets=tg, faults=faults, **kw)
        res.append((sc, {"be": be, "ex": ex, "tg": list(tg)}))
    for be in BACKENDS:
        many = [r.choice(POOL) for _ in range(ctx.pick(25, 60))]
        add(be, QUERIES[2], tg=many)
        k = len(many)
        for kind, nth, mode in (("exec", k + 1, "err"), ("exec", k // 2, "close"), ("drop", k, "err"), ("create", k, "err"), ("create", k, "close_after"), ("drop", k - 1, "close"), ("exec", k + 1, "close")):
            add(be, QUERIES[2], tg=many, faults=[{"kind": kind, "nth": nth, "mode": mode}])
        add(be, ODDQ[be])
        add(be, ODDQ[be], ex=False)
        add(be, QUERIES[4])
        add(be, QUERIES[4], faults=[{"kind": "exec", "nth": 0, "ms": 12, "mode": ""}], out="")
        add(be, QUERIES[3], faults=[{"kind": "exec", "nth": 3, "ms": 2600, "mode": ""}])
        add(be, QUERIES[3], faults=[{"kind": "exec", "nth": 2, "ms": 1200, "mode": "err"}])
        add(be, QUERIES[1], tg=["users:name"], faults=[{"kind": "create", "nth": 1, "ms": 1500, "mode": ""}, {"kind": "drop", "nth": 1, "ms": 1500, "mode": ""}])
        for j in range(ctx.pick(4, 30)):
            tg = [r.choice(POOL) for _ in range(r.randint(1, 6))]
            fl = [{"kind": "exec", "nth": i + 1, "ms": r.choice(DELAYS), "mode": ""} for i in range(len(tg) + 1)]
            if r.random() < 0.4:
                fl.append({"kind": r.choice(["exec", "create", "drop"]), "nth": r.randint(1, len(tg)), "mode": r.choice(["err", "close", "close_after"])})
            add(be, QUERIES[r.choice([1, 2, 3, 4])], tg=tg, faults=fl, out=r.choice(["out.html", "out.html", "r.htm"]))
    return res


def drive_plans(ctx, only_exam, quick_pairs, thorough_pairs):
    plans = model(ctx, ctx.pick(2, 3), 2)
    keys = sorted(plans, key=str)
    single = [k for k in keys if len(k[3]) <= 1]
    pairs = [k for k in keys if len(k[3]) == 2]
    ctx.rng.shuffle(pairs)
    keys = single + pairs[:ctx.pick(quick_pairs, thorough_pairs)]
    if only_exam:
        keys = [k for k in keys if k[1]]
    meta, scs = {}, []
    for n, k in enumerate(keys):
        sc, m = from_plan(ctx, n, k, True)
        scs.append(sc)
        meta[sc["id"]] = m
    for sc, m in extra_scenarios(ctx):
        scs.append(sc)
        meta[sc["id"]] = m
    obs = ctx.drive(scs, par=24)
    recs = [record(o[0], meta[i]) for i, o in obs.items()]
    drift = conform(ctx, plans, meta, obs)
    ctx.extra["model_conformance"] = drift
    ctx.extra["fault_plans"] = len(keys)
    byid = {s["id"]: s for s in scs}
    ctx.samples = [{"args": byid[i]["args"], "faults": byid[i]["server"]["faults"], "exit": obs[i][0]["exit"],
                    "history": ["%s%s:%s" % (e["kind"], " " + e["name"] if e["name"] else "", e["outcome"]) for e in obs[i][0]["events"]][:14]}
                   for i in list(byid)[3::max(1, len(byid) // 4)]][:4]
    return recs, byid, obs, meta


def conform(ctx, plans, meta, obs):
    """How many recorded histories are behaviours of Examine for their fault plan (information, not a verdict)."""
    ok, off = 0, []
    for i, m in meta.items():
        if "key" not in m:
            continue
        o = obs[i][0]
        names = []
        h = []
        for e in o["events"]:
            if e["kind"] == "connect":
                continue
            x = 0
            if e["kind"] in ("create", "drop"):
                k = (e["table"], e["name"]) if e["table"] else next((n for n in reversed(names) if n[1] == e["name"]), (e["table"], e["name"]))
                if e["kind"] == "create" and not (h and h[-1][0] == "create" and h[-1][2] == "lost"):
                    names.append(k)
                x = len(names) - names[::-1].index(k) if k in names else -1
            h.append((e["kind"], x, e["outcome"]))
        got = (tuple(h), "report" if o["exit"] == 0 else "error")
        if got in plans[m["key"]]:
            ok += 1
        else:
            off.append(i)
    return {"behaviours_of_the_spec": ok, "others": len(off), "first_others": off[:3]}


def details(byid, obs):
    def f(i):
        o = obs[i][0]
        return {"scenario": byid[i], "exit": o["exit"], "stderr": o["stderr"][-800:],
                "history": [(e["kind"], e["table"], e["name"], e.get("cols"), e["outcome"], e["live"], e["text"][:120]) for e in o["events"]]}
    return f


def run_exam(ctx, only_exam=True):
    recs, byid, obs, meta = drive_plans(ctx, only_exam, 250, 4000)
    ctx.judge("JExamine", recs, {"Prop": '"%s"' % ctx.prop}, details(byid, obs))
    ctx.assumptions = ["the stand-in servers speak the wire protocols and apply DDL as MySQL, PostgreSQL and Hasura do",
                       "the process is not killed by a signal and connections can be re-established",
                       "TLC and the CommunityModules"]


def c01(ctx):
    run_exam(ctx)


def c02(ctx):
    run_exam(ctx)


def c03(ctx):
    run_exam(ctx)


NOTSINGLE = {
    "mysql": ["DELETE FROM users", "UPDATE users SET name = 'x'", "INSERT INTO users (name) VALUES ('x')", "DROP TABLE users",
              "SELECT id FROM users; DELETE FROM users", "DELETE u FROM users u INNER JOIN todos t ON u.id = t.user_id",
              "UPDATE users u INNER JOIN todos t ON u.id = t.user_id SET u.name = 'x'", "DELETE FROM users; SELECT id FROM users",
              "REPLACE INTO users (id) VALUES (1)", "TRUNCATE TABLE users", "SELECT 1; SELECT 2", "", ";", "  ", "nonsense", "SELECT FROM WHERE",
              "CREATE TABLE x (id int)", "SELECT name FROM users WHERE email = 'a' ; ; DROP TABLE todos", "SET GLOBAL max_connections = 1",
              "-- only a comment", "/* c */", "EXPLAIN SELECT name FROM users", "SHOW TABLES",
              "SELECT name FROM users UNION SELECT title FROM todos"],
}
NOTSINGLE["postgres"] = [q for q in NOTSINGLE["mysql"] if not q.startswith(("REPLACE", "SET GLOBAL", "DELETE u", "UPDATE users u"))] + [
    "DELETE FROM users USING todos WHERE users.id = todos.user_id", "WITH d AS (DELETE FROM users RETURNING id) SELECT id FROM d",
    "UPDATE users SET name = 'x' RETURNING id", "INSERT INTO users (name) SELECT title FROM todos", "COPY users TO '/tmp/x'",
    "SELECT name FROM users WHERE email = 'a'; UPDATE users SET email = 'b'", "DO $$ BEGIN DELETE FROM users; END $$", "CREATE INDEX i ON users (name)",
    "WITH u AS (UPDATE users SET name = 'y' RETURNING *) SELECT name FROM users", "VACUUM", "REINDEX TABLE users"]


def c04(ctx):
    recs, byid, obs, meta = drive_plans(ctx, False, 60, 600)
    scs, m2 = [], {}
    n = 0

    def add(be, q, single, **kw):
        nonlocal n
        n += 1
        sc = scenario("q%d" % n, be, q, **kw) if be != "hasura" else suggest("q%d" % n, be, kw.pop("gql", GQL), T, sql=q, **kw)
        scs.append(sc)
        m2[sc["id"]] = {"be": be, "ex": kw.get("examine", False), "tg": kw.get("targets", []), "single": single}
    for be in ("mysql", "postgres"):
        for q in NOTSINGLE[be]:
            for ex in (False, True):
                add(be, q, False, examine=ex)
            add(be, q, False, examine=True, targets=["users:name"])
    # one single SELECT, in many spellings: nothing beyond what is asked for
    sel = ["SELECT name FROM users WHERE email = 'a'", "select name from users where email = 'a;b'", "SELECT name FROM users WHERE email = 'a';",
           "  SELECT name\n FROM users\tWHERE email = 'DELETE FROM users'  ", "(SELECT name FROM users WHERE email = 'a')",
           "SELECT name FROM users WHERE email = 'a' -- ; DELETE FROM users", "/* DROP TABLE users; */ SELECT name FROM users WHERE email = 'a'",
           "SELECT COUNT(*) FROM users WHERE name = 'x' GROUP BY age HAVING COUNT(*) > 1 ORDER BY age LIMIT 3",
           "SELECT u.name FROM users u LEFT JOIN todos t ON u.id = t.user_id WHERE t.title LIKE '%x%' AND u.age IN (1,2,3)",
           "SELECT name FROM users WHERE id = 1", "SELECT 1 FROM users"]
    for be in BACKENDS:
        for q in sel:
            for ex in (False, True):
                add(be, q, True, examine=ex)
            add(be, q, True, targets=["users:name+email", "todos:title"])
            add(be, q, True, out="")
            add(be, q, True, faults=[{"kind": ctx.rng.choice(["explain", "columns", "indexes"]), "nth": 1, "mode": ctx.rng.choice(["err", "close"])}])
    for be in BACKENDS:
        for q in oddtq(be):
            for ex in (False, True):
                add(be, q, True, examine=ex)
    o2 = ctx.drive(scs, name="c04")
    recs += [record(o[0], m2[i]) for i, o in o2.items()]
    byid.update({s["id"]: s for s in scs})
    obs.update(o2)
    ctx.judge("JExamine", recs, {"Prop": '"C04"'}, details(byid, obs))


def c05(ctx):
    r = ctx.rng
    scs, meta = [], {}

    def add(be, tg, valid, must=False, ex=True, **kw):
        sc = scenario("i%d" % len(scs), be, QUERIES[r.choice([0, 1, 2, 3])], examine=ex, targets=tg, **kw)
        scs.append(sc)
        meta[sc["id"]] = {"be": be, "ex": ex, "tg": tg, "valid": valid, "must": must}
    word = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"

    def ident():
        return "".join(r.choice(word) for _ in range(r.choice([1, 1, 2, 3, 8, 25, 60])))
    bad = ["users", "users:", ":name", ":", "", "+", "users:+", "users:+name", "users:name+", "users:name++email", "users:na me", "us ers:name",
           "users:name,email", "users:name;drop", "users: name", "users:name ", " users:name", "users:name+ email", "users:na`me", "use`rs:name",
           'users:na"me', "users:na'me", "users:name\nemail", "users:name\n", "\nusers:name", "users:name\ntodos:title", "x\nusers:name", "users\n:name",
           "users:\nname", "users:name+\nemail", "users:name\n+email", "db.users:name", "users:name:email", "users:t.name", "users:naïve", "usérs:name",
           "users:name+em-ail", "users:name\r", "users:name\t", "users:name)", "users:name) ; DROP TABLE users; --", "users:name DESC", "users:(name)", "users:name(10)",
           "users::name", "users:*", "users:name+*", "users:name+email:x", "users:\u2003name", "users:name\u00a0", "users:ｎame", "users:name\x0b", "users:١", "ＡＢ:c"]
    for be in BACKENDS:
        for b in bad:
            add(be, [b], False)
        for b in r.sample(bad, ctx.pick(16, len(bad))):
            add(be, ["users:name", b], False)
            add(be, [b, "users:name"], False)
            add(be, ["users:name"] * 3 + [b], False, ex=True)
            add(be, [b], False, ex=False)
        for p in POOL:
            add(be, [p], True, must=True)
        for _ in range(ctx.pick(40, 300)):
            k = r.choice([1, 1, 2, 3, 4, 7])
            tg = [ident() + ":" + "+".join(ident() for _ in range(r.choice([1, 1, 2, 3, 5]))) for _ in range(k)]
            add(be, tg, True, must=True, out=r.choice(["o.html", "o.html", ""]))
        for _ in range(ctx.pick(25, 200)):  # several at the same tables, repeated ones, each a part of another
            tg = [r.choice(POOL) for _ in range(r.choice([2, 2, 3, 4, 6, 12]))]
            if r.random() < 0.4:
                t = r.choice(["users", "todos", "Mixed", "a"])
                cs = [ident() for _ in range(3)] + ["name", "email"]
                tg = [t + ":" + "+".join(r.sample(cs, r.randint(1, 4))) for _ in range(r.randint(2, 5))]
            if r.random() < 0.3:
                tg.append(tg[0])
            if r.random() < 0.2:
                tg.append(r.choice([tg[-1], tg[0].upper(), tg[0].lower()]))
            add(be, tg, True, must=True, out=r.choice(["o.html", "o.html", ""]))
        for _ in range(ctx.pick(10, 60)):  # mutated values: anything not table:col+col is refused
            g = ident() + ":" + ident()
            p = r.randrange(len(g) + 1)
            c = r.choice("\n\r :;`\"'+-.,()/*é\x7f%$#@!")
            m = g[:p] + c + g[p:]
            ok = re.fullmatch(r"[0-9A-Za-z_]+:[0-9A-Za-z_]+(\+[0-9A-Za-z_]+)*", m) is not None and not m.endswith("\n")
            add(be, [m], ok, must=ok)
        add(be, [], True, must=True)
        add(be, [], True, must=True, ex=True)
        for q in oddtq(be):       # only what has a safe name is examined (Hasura: or nothing at all)
            for ex in (True, False):
                sc = scenario("t%d" % len(scs), be, q, examine=ex)
                scs.append(sc)
                meta[sc["id"]] = {"be": be, "ex": ex, "tg": [], "valid": True, "must": be != "hasura"}
    for be in BACKENDS:       # without -i: the suggested ones with safe names
        for q in list(QUERIES.values()) + [ODDQ[be]]:
            sc = scenario("s%d" % len(scs), be, q, examine=True)
            scs.append(sc)
            meta[sc["id"]] = {"be": be, "ex": True, "tg": [], "valid": True, "must": True}
    model(ctx, 2, 1)
    obs = ctx.drive(scs, par=24)
    recs = [record(o[0], meta[i]) for i, o in obs.items()]
    byid = {s["id"]: s for s in scs}
    ctx.samples = [{"i": meta[s["id"]]["tg"], "exit": obs[s["id"]][0]["exit"]} for s in scs[5::150]]
    ctx.judge("JExamine", recs, {"Prop": '"C05"'}, details(byid, obs))
