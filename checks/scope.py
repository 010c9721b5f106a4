"""C07-C10, C24, C25: which indexes are suggested (spec: Scope, JScope, MCScope)."""
import copy, json, re, zlib
from scen import *
from sqlgen import *
from vlib import CheckError

TN = ["users", "user2", "todos", "tags", "orders", "items", "a", "groups_x", "t1", "events"]
CN = ["id", "name", "email", "user_id", "title", "status", "age", "kind", "x", "created_at", "a", "b_2", "users", "todo", "name2"]
GQL = "query q { users { name } }"


def schema(r, ntab=None, be="mysql"):
    names = r.sample(TN, ntab or r.choice([1, 2, 2, 3, 3, 4]))
    sch = {}
    pool = CN + (["userId", "Zip"] if be != "mysql" else [])
    if r.random() < 0.4:     # tables that have much in common
        pool = r.sample(pool, 6)
    nopk = r.random() < 0.12
    for n in names:
        cols = r.sample(pool, r.choice([2, 3, 4, 4, 5]))
        if "id" not in cols and r.random() < 0.7:
            cols[0] = "id"
        x = r.random()
        pk = ["id"] if "id" in cols and x < 0.7 else cols[:1] if x < 0.8 else r.sample(cols, 2) if x < 0.95 else []
        sch[n] = {"cols": cols, "pk": [] if nopk else pk}
    return sch


def tables_of(sch, be=""):
    """The catalog. Columns of MySQL are the same whatever the case of their letters, so some are stored with upper case letters."""
    def nm(t, c):
        return {0: c.upper(), 1: c.title()}.get(zlib.crc32(("%s.%s" % (t, c)).encode()) % 7, c) if be == "mysql" else c
    return [table(n, [nm(n, c) for c in t["cols"]], [nm(n, c) for c in t["pk"]]) for n, t in sch.items()]


def scen_of(id, be, sql, sch, **kw):
    tb = kw.pop("tables", None)
    if tb is None:
        tb = tables_of(sch, be)
    if be == "hasura":
        return suggest(id, be, GQL, tb, sql=sql, **kw)
    return suggest(id, be, sql, tb, **kw)


def own_of(be):
    return "gdb" if be == "mysql" else "public"


def dialect(be):
    return "mysql" if be == "mysql" else "pg"


def gen(r, be, sch, depth=2):
    return Gen(r, dialect(be), sch).query(depth, [], "root")


def got(o, be):
    b = report_body(o, be)
    if b is None:
        return None
    return [{"t": t["table"], "cols": [c.lower() if be == "mysql" else c for c in t["cols"]]} for t in targets_of(b)]


def ranks(sch, more=()):
    ns = set(more)
    for n, t in sch.items():
        ns.add(n)
        ns.update(t["cols"])
    return {n: i + 1 for i, n in enumerate(sorted(ns, key=lambda s: s.encode()))}


def folds(names):
    return {n: n.lower() for n in names}


def record(id, be, o, sch, ast, **kw):
    g = got(o, be)
    names = set()
    for x in (g or []):
        names.add(x["t"])
        names.update(x["cols"])
    rec = {"id": id, "kind": "ok", "be": be, "sch": sch, "opq": be == "mysql", "q": strip(ast), "rank": ranks(sch, names),
           "exit": o["exit"], "report": g is not None, "panic": o["panic"], "got": g or [], "reads": sorted(reads(ast)), "what": ""}
    rec.update(kw)
    return rec


def some_indexes(r, sch):
    """Indexes that have nothing to do with the query: they may only ever withhold the very same candidate."""
    ix = []
    for t in sch:
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            cs = r.sample(sch[t]["cols"], min(len(sch[t]["cols"]), r.choice([1, 1, 2, 3])))
            ix.append(dict(index(t, cs, name="e%d" % len(ix)), unique=r.random() < 0.5))
    return ix


def batch(ctx, n, tag, depth=2, hs=0.25, indexes=False):
    """Random schema/query pairs, driven."""
    r = ctx.rng
    scs, meta = [], {}
    for i in range(n):
        be = "mysql" if r.random() < 0.35 else "hasura" if r.random() < hs else "postgres"
        sch = schema(r, be=be)
        ast = gen(r, be, sch, depth)
        sql = Render(r, dialect(be), own=own_of(be)).query(ast)
        s = scen_of("%s%d" % (tag, i), be, sql, sch, indexes=some_indexes(r, sch) if indexes else [])
        scs.append(s)
        meta[s["id"]] = (be, sch, ast, sql, s)
    return scs, meta


def describe(meta, res):
    def f(i):
        be, sch, ast, sql, s = meta[i][:5]
        return {"backend": be, "schema": sch, "sql": sql, "scenario": s, "stderr": res[i][0]["stderr"][-600:]}
    return f


def model_queries(ctx, quick, thorough):
    """Queries enumerated by TLC from MCScope: every one satisfies the lemmas of the specification, and all (or a sample) are replayed."""
    scs, meta = [], {}
    r = ctx.rng
    for be in ("mysql", "postgres"):
        cfg = "SPECIFICATION Spec\nCONSTANTS\n Dialect = \"%s\"\n MaxFrom = %d\n MaxRefs = %d\n Deep = %s\nINVARIANTS Lemmas Emit\n" % (
            dialect(be), 2, ctx.pick(2, 3), "TRUE" if be != "mysql" else "FALSE")
        out, _, _ = ctx.tlc("MCScope", cfg)
        qs = ctx.printed_json(out, "QRY")
        if not qs:
            raise CheckError("MCScope emitted no query")
        ctx.extra.setdefault("model_queries", {})[be] = len(qs)
        k = ctx.pick(quick, thorough)
        qs.sort(key=lambda q: json.dumps(q, sort_keys=True))
        pick = qs if len(qs) <= k else r.sample(qs, k)
        for i, q in enumerate(pick):
            b = be if be == "mysql" or i % 4 else "hasura"
            sch = q["sch"]
            ast = unstrip(q["q"])
            sql = Render(r, dialect(be), plain=(i % 2 == 0)).query(ast)
            s = scen_of("m-%s-%d" % (be, i), b, sql, sch)
            scs.append(s)
            meta[s["id"]] = (b, sch, ast, sql, s)
    return scs, meta


def run_judge(ctx, prop, quick, thorough, mq, mt, depth=2):
    n = ctx.pick(quick, thorough)
    scs, meta = batch(ctx, n, "r", ctx.pick(depth, depth + 1), indexes=prop == "C08")
    if prop == "C07":
        for id, be, sch, ast, sql in known_cases():
            scs.append(scen_of(id, be, sql, sch))
            meta[id] = (be, sch, ast, sql, scs[-1])
    s2, m2 = model_queries(ctx, mq, mt)
    scs += s2
    meta.update(m2)
    res = ctx.drive(scs)
    recs = []
    for s in scs:
        be, sch, ast, sql = meta[s["id"]][:4]
        recs.append(record(s["id"], be, res[s["id"]][0], sch, ast))
        if prop == "C08":
            recs[-1]["existing"] = [{"t": x["table"], "cols": x["cols"]} for x in meta[s["id"]][4]["server"]["indexes"] if not x["primary"]]
            recs[-1]["fold"] = folds(set(recs[-1]["rank"]) | {n for x in recs[-1]["existing"] for n in x["cols"]})
    for x in recs[:2] + recs[-2:]:
        ctx.samples.append("%s: %s -> %d suggestions" % (x["be"], meta[x["id"]][3], len(x["got"])))
    ctx.extra["random_queries"] = n
    return scs, meta, res, recs


def known_cases():
    """(id, backend, schema, AST, SQL) of the defects listed in known-findings.json: fixed queries, judged like any other."""
    ref = lambda q, c: {"q": q, "c": c}
    ex = lambda *rs: {"refs": list(rs), "subs": [], "plain": False}
    col = lambda q, c: {"refs": [ref(q, c)], "subs": [], "plain": True}
    sel = lambda e: {"k": "e", "e": e, "as": ""}
    base = lambda n, a, how, on=NOEXPR: {"k": "b", "name": n, "as": a, "lat": False, "how": how, "on": on, "using": []}
    q = lambda s, f, where=NOEXPR, grp=(): {"sel": s, "from": f, "where": where, "grp": list(grp), "hav": NOEXPR, "ord": []}
    sch = {"users": {"cols": ["id", "name", "age"], "pk": ["id"]}, "pets": {"cols": ["id", "age"], "pk": ["id"]}, "tags": {"cols": ["id", "age"], "pk": ["id"]}}
    d = {"k": "d", "sub": q([sel(col("", "name"))], [base("users", "", "first")], where=ex(ref("", "name")), grp=[col("", "age")]), "as": "d", "lat": False, "how": "comma", "on": NOEXPR, "using": []}
    yield ("kf-group", "postgres", sch, q([sel(col("p", "id"))], [base("pets", "p", "first"), d], where=ex(ref("", "age"))),
           "SELECT p.id FROM pets p, (SELECT name FROM users WHERE name = 'x' GROUP BY age) d WHERE age = 1")
    on = q([sel(col("u", "name"))], [base("users", "u", "first"), base("pets", "p", "join", ex(ref("p", "id"), ref("u", "id"))),
                                     base("tags", "g", "join", ex(ref("g", "id"), ref("u", "id")))])
    sch2 = dict(sch, users={"cols": ["id", "name"], "pk": ["id"]})
    on["from"][1]["on"] = ex(ref("", "age"), ref("u", "id"))
    for be in ("mysql", "postgres"):
        if be == "mysql":
            us = q([sel(col("g", "age"))], [base("pets", "p", "first"), base("users", "u", "cross"), base("users", "v", "join"), base("tags", "g", "join", ex(ref("g", "age")))])
            for it, lo, end in zip(us["from"], (0, 0, 1, 0), (0, 1, 2, 3)):
                it.update(lo=lo, end=end)
            us["from"][2]["using"] = ["id"]
            yield ("kf-using", be, sch, us, "SELECT g.age FROM pets p CROSS JOIN (users u JOIN users v USING (id)) JOIN tags g ON g.age = 1")
        yield ("kf-on-" + be, be, sch2, on, "SELECT u.name FROM users u JOIN pets p ON age = u.id JOIN tags g ON g.id = u.id")


def c07(ctx):
    scs, meta, res, recs = run_judge(ctx, "C07", 900, 9000, 500, 4000)
    ctx.judge("JScope", recs, {"Prop": '"C07"'}, describe(meta, res))


def c08(ctx):
    scs, meta, res, recs = run_judge(ctx, "C08", 900, 9000, 500, 4000, depth=1)
    ctx.judge("JScope", recs, {"Prop": '"C08"'}, describe(meta, res))


# ---- C09 ------------------------------------------------------------------------------------------------------
def variants_of_index(r, t, cols, sch):
    """Indexes near a candidate."""
    others = [c for c in sch[t]["cols"] if c not in cols]
    res = [(t, cols), (t, cols[::-1]), (t, cols + others[:1]), (t, others[:1] + cols), (t, cols[:-1]), (t, cols[1:]), (t, [c.upper() for c in cols]),
           (t, sorted(cols))]
    for t2 in sch:
        if t2 != t and set(cols) <= set(sch[t2]["cols"]):
            res += [(t2, cols)] * 3
    if len(cols) > 1:
        p = list(cols)
        r.shuffle(p)
        res.append((t, p))
        res.append((t, ["".join(cols)]))
    return [(t, c) for t, c in res if c]


def c09(ctx):
    r = ctx.rng
    n = ctx.pick(400, 2500)
    scs, meta = batch(ctx, n, "b", 1)
    base = ctx.drive(scs, name="base")
    recs, runs, info = [], [], {}
    for s in scs:
        be, sch, ast, sql = meta[s["id"]][:4]
        g = got(base[s["id"]][0], be)
        if g is None:
            ctx.violation("%s: a supported query was refused" % s["id"], {"sql": sql, "schema": sch, "stderr": base[s["id"]][0]["stderr"][-400:]})
            continue
        for k in range(4):
            ix = []
            if g:
                for x in r.sample(g, min(len(g), r.choice([1, 1, 2, 3, 5]))):
                    v = variants_of_index(r, x["t"], x["cols"], sch)
                    ix.append(r.choice(v) if k else v[0])
                if k == 3:
                    ix = [(x["t"], x["cols"]) for x in g] + ix
            for t in sch:
                if r.random() < 0.2:
                    cs = list(sch[t]["cols"])
                    r.shuffle(cs)
                    ix.append((t, cs[:r.choice([1, 2, 3])]))
            for j, (t, cs) in enumerate(ix):
                if r.random() < 0.12:   # a part that is an expression never is one of the columns
                    cs = list(cs)
                    at = r.randint(0, len(cs))
                    if at < len(cs) and r.random() < 0.7:
                        cs[at] = "(lower(%s))" % cs[at]
                    else:
                        cs.insert(at, "(a + b)")
                    ix[j] = (t, cs)
            r.shuffle(ix)
            # index names are unique per table only on MySQL; equal names on different tables must not be merged
            same = be == "mysql" and r.random() < 0.5
            seen = {}
            idx = []
            for t, c in ix:
                if not seen.get(t):
                    seen[t] = r.sample(["a1", "i1", "i2", "z1", "z2"], 5) + ["n%d" % x for x in range(900, 0, -1)]
                idx.append(index(t, c, name=seen[t].pop(0) if same else "i%d_%s" % (len(idx), t)))
                idx[-1]["unique"] = r.random() < 0.25
            sc = scen_of("%s-%d" % (s["id"], k), be, sql, sch, indexes=idx, server={"shuffle": r.randrange(1000)})
            runs.append(sc)
            info[sc["id"]] = (be, sch, ast, sql, sc, g, [{"t": t, "cols": c} for t, c in ix])
    res = ctx.drive(runs, name="with")
    for sc in runs:
        be, sch, ast, sql, _, g, ex = info[sc["id"]]
        o = res[sc["id"]][0]
        g2 = got(o, be)
        names = {n for x in g + ex + (g2 or []) for n in [x["t"]] + x["cols"]}
        recs.append({"id": sc["id"], "kind": "ok", "exit": o["exit"], "report": g2 is not None, "panic": o["panic"], "got": g2 or [], "base": g,
                     "existing": ex, "fold": folds(names), "what": ""})
    ctx.samples += ["%d candidates, existing %s -> %d left" % (len(x["base"]), x["existing"][:3], len(x["got"])) for x in recs[:4]]
    ctx.judge("JScope", recs, {"Prop": '"C09"'}, describe(info, res))


# ---- C10 ------------------------------------------------------------------------------------------------------
def c10(ctx):
    r = ctx.rng
    n = ctx.pick(220, 2200)
    scs, meta, groups = [], {}, []
    for i in range(n):
        be = r.choice(["mysql", "postgres", "postgres", "hasura"])
        sch = schema(r, be=be)
        ast = gen(r, be, sch, 2)
        ids = []
        for k in range(4):
            a = ast if k == 0 else rename(ast, r) if k == 1 else shuffled(ast, r) if k == 2 else shuffled(rename(ast, r), r)
            sql = Render(r, dialect(be), plain=(k == 0), own=own_of(be)).query(a)
            if k == 3 and r.random() < 0.5:
                sql = sql.replace(" ", "\n\t", 3) + (" -- comment" if r.random() < 0.5 else "  ;")
            s = scen_of("d%d-%d" % (i, k), be, sql, sch, server={"shuffle": r.randrange(1000)})
            if k == 0:
                s["repeat"] = ctx.pick(6, 20)
            scs.append(s)
            ids.append(s["id"])
            meta[s["id"]] = (be, sch, ast, sql, s)
        groups.append(ids)
    res = ctx.drive(scs)
    recs = []
    for ids in groups:
        be, sch, ast, sql, s = meta[ids[0]]
        o = res[ids[0]][0]
        others, bad = [], None
        for k in ids:
            for x in res[k]:
                g = got(x, be)
                if g is None:
                    bad = x
                others.append(g or [])
        rec = record(ids[0], be, bad or o, sch, ast, others=others,
                     reps=[json.dumps(x["report"], sort_keys=True) for x in res[ids[0]]])
        recs.append(rec)
    ctx.samples += ["%s (and %d respellings, %d repetitions)" % (meta[g[0]][3], 3, ctx.pick(6, 20)) for g in groups[:3]]
    ctx.judge("JScope", recs, {"Prop": '"C10"'}, describe(meta, res))


# ---- C24 ------------------------------------------------------------------------------------------------------
def c24(ctx):
    r = ctx.rng
    n = ctx.pick(900, 6000)
    scs, meta = [], {}
    for i in range(n):
        be = r.choice(["mysql", "postgres", "hasura"])
        sch = schema(r, be=be)
        ast = gen(r, be, sch, 1)
        env = {}
        own = None
        if be == "postgres" and r.random() < 0.6:
            own = r.choice(["app", "public", "my_schema"])
            env["DB_SEARCH_PATH"] = own
        if be == "mysql" and r.random() < 0.5:
            own = env["DB_DATABASE"] = r.choice(["app", "my_db", "gdb2"])
        own = own or ("gdb" if be == "mysql" else "public")
        sql = Render(r, dialect(be), own=own if r.random() < 0.5 else None).query(ast)
        tb = [dict(t, schema=own) for t in tables_of(sch, be)]
        ix, existing, decoy_ix = [], [], []
        rd = sorted(reads(ast))
        for t in list(sch):
            if be != "mysql":
                for t0 in tb:
                    if t0["name"] == t:   # system columns
                        t0["cols"] = [{"name": c, "pk": False, "sys": True} for c in r.sample(["ctid", "xmin", "name", "id", "tableoid", "email"], 3) if c not in sch[t]["cols"]] + t0["cols"]
            for other in r.sample([x for x in ("other", "public", "gdb", "app", "information_schema", "mysql", "sys", "pg_catalog") if x != own], 3):
                if r.random() < 0.6:
                    cs = r.sample(CN, 3)
                    if r.random() < 0.5:
                        cs = list(sch[t]["cols"]) + [c for c in cs if c not in sch[t]["cols"]]
                    pk = r.sample(cs, r.choice([1, 2]))
                    tb.append(table(t, cs, pk, schema=other))
                    for _ in range(2):
                        c = r.sample(cs, r.choice([1, 2]))
                        decoy_ix.append(index(t, c, name="o%d" % len(decoy_ix), schema=other))
            if be != "mysql" and r.random() < 0.3:
                tb.append(table(t + "_v", sch[t]["cols"], [], schema=own, kind="v"))
            for _ in range(r.choice([0, 0, 1, 2])):
                c = r.sample(sch[t]["cols"], r.choice([1, 2]))
                ix.append(index(t, c, name="x%d" % len(ix), schema=own))
                existing.append({"t": t, "cols": c})
        r.shuffle(tb)
        kind, what = "ok", ""
        x = r.random()
        if x < 0.2:
            # a table the query names is not in the schema (missing, or only elsewhere, or only as a view)
            vic = r.choice(rd)
            mode = r.choice(["missing", "elsewhere"] + (["view"] if be != "mysql" else []))
            tb = [t for t in tb if not (t["name"] == vic and t["schema"] == own)]
            ix = [y for y in ix if y["table"] != vic]
            if mode == "elsewhere":
                tb.append(table(vic, sch[vic]["cols"], sch[vic]["pk"], schema="other2"))
            else:
                tb = [t for t in tb if not (t["name"] == vic and mode == "missing")]
            if mode == "view":
                tb.append(table(vic, sch[vic]["cols"], [], schema=own, kind="v"))
            kind, what = "refuse", "table not in the schema (" + mode + ")"
        for t in sch:     # the primary key's own index
            if sch[t]["pk"]:
                existing.append({"t": t, "cols": sch[t]["pk"]})
        s = scen_of("s%d" % i, be, sql, sch, tables=tb, indexes=ix + decoy_ix, env=env, server={"shuffle": r.randrange(1000)})
        scs.append(s)
        meta[s["id"]] = (be, sch, ast, sql, s, kind, what, existing)
    res = ctx.drive(scs)
    recs = []
    for s in scs:
        be, sch, ast, sql, _, kind, what, ex = meta[s["id"]]
        rec = record(s["id"], be, res[s["id"]][0], sch, ast, kind=kind, what=what, existing=ex)
        rec["fold"] = folds(list(rec["rank"]))
        recs.append(rec)
    ctx.extra["refusals"] = sum(1 for x in recs if x["kind"] == "refuse")
    ctx.samples += ["%s %s: %s" % (meta[s["id"]][0], meta[s["id"]][5], meta[s["id"]][3]) for s in scs[:4]]
    ctx.judge("JScope", recs, {"Prop": '"C24"'}, describe(meta, res))


# ---- C25 ------------------------------------------------------------------------------------------------------
def nodes_of(ast, be):
    """All queries in ast with their place: root, derived, expr."""
    res = []

    def go(q, place):
        res.append((q, place))
        es = [s["e"] for s in q["sel"] if s["k"] == "e"] + [q["where"], q["hav"]] + q["grp"] + q["ord"] + q.get("don", []) + [it["on"] for it in q["from"]] + [q.get("fn", NOEXPR)]
        for e in es:
            for s in e["subs"]:
                go(s, "expr")
        for it in q["from"]:
            if it["k"] == "d":
                go(it["sub"], "derived" if place != "expr" else "expr")
    go(ast, "root")
    return res


def unsupported(r, be, sch, own):
    """(what, query text) with one construct outside the analyser's support somewhere."""
    ast = copy.deepcopy(gen(r, be, sch, 2))
    d = dialect(be)
    ts = list(sch)
    t = r.choice(ts)
    c = r.choice(sch[t]["cols"])
    ident = Render(r, d, plain=True).ident
    one = "SELECT %s FROM %s" % (ident(c), ident(t))
    setop = one + r.choice([" UNION ", " UNION ALL ", " EXCEPT ", " INTERSECT "]) + one
    cte = "WITH w_%d AS (%s) SELECT %s FROM %s" % (r.randrange(9), one, ident(c), r.choice([ident(t), "w_x"]))
    cte = cte.replace("w_x", cte.split()[1]) if "w_x" in cte else cte
    nodes = nodes_of(ast, be)
    q, place = r.choice(nodes)

    def operand(text, on=True):
        q["from"].append({"k": "raw", "text": text, "as": "rw_1", "how": "raw", "on": NOEXPR, "using": [], "lat": False})

    def in_expr(text):
        k = r.choice(["where", "sel", "hav"])
        if k == "where":
            q["where"] = {"refs": q["where"]["refs"], "subs": q["where"]["subs"] + [{"raw": text}], "plain": False}
        elif k == "hav" and q["grp"]:
            q["hav"] = {"refs": q["hav"]["refs"] or q["grp"][0]["refs"], "subs": [{"raw": text}], "plain": False}
        else:
            q["sel"].append({"k": "e", "e": {"refs": [], "subs": [{"raw": text}], "plain": False}, "as": "rw_out"})

    def anywhere(x):
        ons = [it for it in q["from"] if it["how"] in ("join", "inner", "left") and not it["using"]]
        w = r.choice(["where", "sel", "ord", "grp", "hav"] + (["on"] if ons else []) + (["don"] if d == "pg" and not q["ord"] and not q["grp"] else []))
        if w == "where":
            q["where"] = {"refs": q["where"]["refs"] + [x], "subs": q["where"]["subs"], "plain": False}
        elif w == "sel":
            q["sel"].append({"k": "e", "e": {"refs": [x], "subs": [], "plain": True}, "as": "rw_out"})
        elif w == "hav":
            q["grp"] = q["grp"] or [{"refs": [], "subs": [], "plain": False}]
            q["hav"] = {"refs": q["hav"]["refs"] + [x], "subs": q["hav"]["subs"], "plain": False}
        elif w == "on":
            it = r.choice(ons)
            it["on"] = dict(it["on"], refs=it["on"]["refs"] + [x], plain=False)
        elif w == "don":
            q["don"], q["distinct"] = [{"refs": [x], "subs": [], "plain": True}], False
        else:
            q[w] = q[w] + [{"refs": [x], "subs": [], "plain": True}]

    j = r.choice([" JOIN ", " LEFT JOIN ", " INNER JOIN "])
    on = " ON 1 = 1"
    kinds = ["setop-top", "setop-expr", "cte-top", "cte-expr", "natural", "schema", "column", "qualifier", "window", "setop-operand", "cte-operand"]
    kinds += ["multi"]
    kinds += ["derived", "default", "values"] if d == "mysql" else ["using", "values", "colnames", "paren", "subscript", "arrayquery", "colschema", "colschema", "catalog", "fncolumn"]
    k = r.choice(kinds)
    ro = Render(r, d)
    if k == "setop-top":
        a = ro.query(ast)
        return k, r.choice([a + r.choice([" UNION ", " UNION ALL ", " EXCEPT ", " INTERSECT "]) + one, "(" + a + ") UNION ALL (" + one + ")", one + " UNION " + a])
    if k == "multi":
        a = ro.query(ast)
        return k, r.choice([a + "; " + one, one + ";" + a, one + ";" + one + ";", "; " .join([a, a]), a + ";\nSELECT 1", "SELECT 1;" + a])
    if k == "cte-top":
        return k, "WITH w_9 AS (" + one + ") " + ro.query(ast)
    if k == "setop-operand":
        operand(j + "(" + setop + ") rw_1" + on)
    elif k == "cte-operand":
        operand(j + "(" + cte + ") rw_1" + on)
    elif k == "setop-expr":
        in_expr(setop)
    elif k == "cte-expr":
        in_expr(cte)
    elif k == "natural":
        operand(r.choice([" NATURAL JOIN ", " NATURAL LEFT JOIN "]) + ident(t) + " rw_1")
    elif k == "using":
        operand(j + ident(t) + " rw_1 USING (" + ident(c) + ")")
    elif k == "paren":
        x = "(" + ident(t) + " rw_1 JOIN " + ident(t) + " rw_2 ON rw_1.%s = rw_2.%s" % (ident(c), ident(c)) + ")"
        operand(r.choice([j + x + on, ", " + x, j + x + " rw_3" + on]))
    elif k in ("subscript", "arrayquery"):
        if k == "arrayquery":
            in_expr_text = r.choice(["%s = ANY (ARRAY(" + one + "))", "ARRAY(" + one + ") IS NULL"])
            in_expr_text = in_expr_text.replace("%s", "1")
        else:
            in_expr_text = r.choice(["(ARRAY[1, 2])[1] = 1", "(ARRAY[1, 2])[1:2] IS NULL"])
        in_expr("SELECT 1 FROM " + ident(t) + " WHERE " + in_expr_text)
    elif k == "colschema":
        anywhere({"q": r.choice(["rw_s", own + ".rw_s", "gdb." + own] + [x for x in ("public", "app", "pg_catalog") if x != own]) + "." + t, "c": c})
    elif k == "catalog":
        operand(j + r.choice(["gdb.", "other."]) + own + "." + ident(t) + " rw_1" + on)
    elif k == "fncolumn":
        q["raw_fn"] = r.choice([", ", " CROSS JOIN "]) + "generate_series(1, 3) AS rw_1" + r.choice(["", "(rw_2)"])
        anywhere(r.choice([{"q": "rw_1", "c": "rw_2"}, {"q": "", "c": "rw_1"}, {"q": "", "c": "rw_2"}]))
    elif k == "default":
        q, place = nodes[0]
        anywhere({"q": "", "c": c, "wrap": r.choice(["DEFAULT(%s)", "VALUES(%s)"])})
    elif k == "schema":
        operand(j + r.choice(["other", "db2"] + [x for x in ("public", "app") if x != own]) + "." + ident(t) + r.choice([" rw_1", ""]) + on)
    elif k == "values":
        operand(j + ("(VALUES ROW(1)) rw_1" if d == "mysql" else "(VALUES (1)) rw_1") + on)
    elif k == "colnames":
        operand(j + r.choice([ident(t), "(" + one + ")"]) + " AS rw_1(" + r.choice(["rw_2", ident(c)]) + ")" + on)
    elif k == "derived":
        q, place = nodes[0]
        # refused when one of its columns is used (an unused derived table does not matter to the other tables)
        operand(j + "(" + one + ") rw_1 ON " + r.choice(["rw_1.%s = 1", "1 = rw_1.%s"]) % ident(c))
    elif k == "window":
        q["raw_tail"] = " WINDOW w AS (PARTITION BY 1)"
        q["ord"] = []
        q["limit"] = ""
    else:
        if be == "mysql":
            q, place = nodes[0]
        x = {"q": "", "c": "nope_col"} if k == "column" else {"q": "nope_t", "c": c}
        if r.random() < 0.3 and k == "column":
            x["q"] = q["from"][0]["as"] or q["from"][0]["name"]
        anywhere(x)
    return k + "-" + place, ro.query(ast)


def c25(ctx):
    r = ctx.rng
    scs, meta = [], {}
    for i in range(ctx.pick(1500, 9000)):
        be = r.choice(["mysql", "postgres", "postgres", "hasura"])
        sch = schema(r, be=be)
        own, env = own_of(be), {}
        if be == "postgres" and r.random() < 0.4:
            own = env["DB_SEARCH_PATH"] = r.choice(["app", "my_schema"])
        what, sql = unsupported(r, be, sch, own)
        s = scen_of("u%d" % i, be, sql, sch, preout=r.choice([None, None, "old"]), env=env)
        scs.append(s)
        meta[s["id"]] = (be, sch, None, sql, s, what)
    res = ctx.drive(scs)
    recs, kinds = [], {}
    for s in scs:
        be, sch, ast, sql, _, what = meta[s["id"]]
        o = res[s["id"]][0]
        kinds[be + " " + what] = kinds.get(be + " " + what, 0) + 1
        recs.append({"id": s["id"], "kind": "refuse", "what": what, "exit": o["exit"], "report": o["outstate"] == "written", "panic": o["panic"]})
    ctx.extra["constructs"] = kinds
    ctx.samples += ["%s %s: %s" % (meta[s["id"]][0], meta[s["id"]][5], meta[s["id"]][3]) for s in scs[:5]]
    ctx.judge("JScope", recs, {"Prop": '"C25"'}, describe(meta, res))
