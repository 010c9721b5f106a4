"""Builders of scenarios for the driver."""
import json

MYSQL_PLAN = ["-> Table scan on users  (cost=1.25 rows=10) (actual time=0.012..0.345 rows=10 loops=1)"]
PG_PLAN = ["Seq Scan on users  (cost=0.00..1400.36 rows=65536 width=9) (actual time=0.007..4.327 rows=65536 loops=1)",
           "  Filter: (email = 'a'::text)",
           "Planning Time: 0.031 ms", "Execution Time: 6.5 ms"]
HASURA_PLAN = ["Aggregate  (cost=8.46..8.47 rows=1 width=32)",
               "  ->  Seq Scan on users  (cost=0.00..8.44 rows=1 width=9)",
               "        Filter: (email = 'a'::text)"]
BACKENDS = ("mysql", "postgres", "hasura")


def table(name, cols, pk=("id",), schema=None, kind="r"):
    return {"schema": schema, "name": name, "kind": kind, "cols": [{"name": c, "pk": c in pk} for c in cols]}


def index(tbl, cols, name=None, primary=False, schema=None):
    return {"schema": schema, "table": tbl, "name": name or "idx_%s_%s" % (tbl, "_".join(cols)), "cols": list(cols), "primary": primary}


def schema_of(be, env=None):
    if be == "mysql":
        return (env or {}).get("DB_DATABASE", "gdb")
    if be == "postgres":
        return (env or {}).get("DB_SEARCH_PATH") or "public"
    return "public"


def suggest(id, be, query, tables, indexes=(), examine=False, targets=(), faults=(), sql=None, plan=None, out="out.html",
            env=None, args=(), preout=None, variables=None, **kw):
    e = {"DB_USERNAME": "user", "DB_PASSWORD": "pw", "DB_DATABASE": "gdb"}
    if be == "mysql":
        e["DB_ADDRESS"] = "{ADDR}"
    elif be == "postgres":
        e.update(DB_HOST="{HOST}", DB_PORT="{PORT}")
    else:
        e = {"HASURA_URL": "{URL}", "HASURA_ADMIN_SECRET": "secret"}
    e.update(env or {})
    e = {k: v for k, v in e.items() if v is not None}
    sch = schema_of(be, e)
    tb = [dict(t, schema=t["schema"] or sch) for t in tables]
    ix = [dict(t, schema=t["schema"] or sch) for t in indexes]
    have = {(t["schema"], t["table"]) for t in ix if t["primary"]}
    for t in tb:
        pk = [c["name"] for c in t["cols"] if c["pk"]]
        if pk and (t["schema"], t["name"]) not in have and t["kind"] == "r":
            ix.append({"schema": t["schema"], "table": t["name"], "name": "PRIMARY" if be == "mysql" else t["name"] + "_pkey", "cols": pk, "primary": True})
    a = ["db", "suggest"] + (["hasura", "postgres"] if be == "hasura" else [be]) + ["-q", query]
    if variables is not None:
        a += ["--json-variables", variables]
    if examine:
        a.append("--with-examine")
    for t in targets:
        a += ["-i", t]
    a += ["-o", "{OUT}" if out else ""]
    a += list(args)
    srv = {"type": be, "tables": tb, "indexes": ix, "faults": list(faults), "password": e.get("DB_PASSWORD", ""),
           "explain": plan if plan is not None else {"mysql": MYSQL_PLAN, "postgres": PG_PLAN, "hasura": HASURA_PLAN}[be]}
    srv.update(kw.pop("server", {}))
    if be == "hasura":
        srv["sql"] = sql if sql is not None else query
    s = {"id": id, "args": a, "env": e, "query": query, "out": out or "", "server": srv}
    if preout is not None:
        s["preout"] = preout
    s.update(kw)
    return s


def live(xs):
    r = []
    for x in xs:
        t, n = x.split(":", 1)
        r.append({"table": t, "name": n})
    return r


def events(o):
    return [{"k": e["kind"], "same": e["same"], "an": e["analyze"], "ro": e["ro"],
             "multi": ";" in e["text"].strip().rstrip(";"),
             "name": e["name"], "table": e["table"], "cols": e.get("cols") or [], "res": e["outcome"], "live": live(e["live"]),
             "t0": e["t0"], "t1": e["t1"] or e["t0"]} for e in o["events"]]


def report_body(o, be):
    """The part of the report that belongs to the backend, or None."""
    r = o["report"]
    if not isinstance(r, dict):
        return None
    s = r.get("suggestData")
    if not s:
        return None
    return s["mysql"] if be == "mysql" else s["postgres"] if be == "postgres" else (s["hasura"] or {}).get("postgres")


def targets_of(b):
    return [{"table": t["tableName"], "cols": [c["name"] for c in t["columns"] or []]} for t in (b.get("indexTargets") or [])]


def exam_of(b):
    x = b.get("examinationResult") if b else None
    if not x:
        return {"has": False, "orig": 0, "res": []}
    return {"has": True, "orig": x["originalTimeMillis"],
            "res": [{"table": r["indexTarget"]["tableName"], "cols": [c["name"] for c in r["indexTarget"]["columns"] or []],
                     "ms": r["executionTimeMillis"]} for r in (x["indexResults"] or [])]}
