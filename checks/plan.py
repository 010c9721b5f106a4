"""C11-C13: the analysis tree of the report (spec: Plan, MCPlan, JPlan)."""
from decimal import Decimal
from scen import *
from vlib import CheckError

TABS = ["users", "todos", "t1", "a", "order_items", "x9", "Users", "u"]
MFIG = ("estimatedInitCost", "estimatedCost", "estimatedReturnedRows", "actualTimeFirstRow", "actualTimeAvg", "actualReturnedRows", "actualLoopCount")
PFIG = ("estimatedInitCost", "estimatedCost", "estimatedReturnedRows", "estimatedWidth", "actualTimeFirstRow", "actualTimeAvg", "actualReturnedRows", "actualLoopCount")
TABLES = [table("users", ["id", "name", "email"]), table("todos", ["id", "user_id", "title"])]


def canon(v):
    """One spelling per number; "" for nothing."""
    if v is None or v == "":
        return ""
    d = Decimal(str(v)).normalize()
    return format(d, "f") if d == d else str(v)


def whole(txt):
    """Row counts are shown as whole numbers."""
    d = Decimal(txt)
    return canon(int(d.quantize(Decimal(1), rounding="ROUND_HALF_UP")))


def num(r, sci=True):
    k = r.randrange(8)
    if k == 0:
        return "0"
    if k == 1:
        return "0.000"
    if k == 2:
        return "%d" % r.randrange(1, 10 ** r.choice([1, 3, 9]))
    if k == 3 and sci:
        return r.choice(["1e+6", "2.5e+06", "1.23e+9", "6.36e+6", "1e-3", "4.5e-05", "3.04e+12"])
    return "%.*f" % (r.choice([1, 2, 2, 3, 3]), r.random() * 10 ** r.choice([0, 1, 4, 7]))


def rows(r, frac=True):
    k = r.randrange(6)
    if k == 0 and frac:
        return r.choice(["1e+6", "6.36e+6", "2.5e+06", "0.333", "0.6", "1.5", "9.99e+8", "7.00", "1234.25"])
    return "%d" % r.choice([0, 1, 2, r.randrange(100), r.randrange(10 ** 9), 2 ** 40 + r.randrange(99), 9007199254740991])


# ---- MySQL ----------------------------------------------------------------------------------------------------
def my_line(r, depth):
    t = r.choice(TABS)
    o = r.choice(TABS)
    title, tab = r.choice([
        ("Table scan on %s" % t, t), ("Index scan on %s using idx_a" % t, t), ("Covering index scan on %s using idx_%s" % (t, o), t),
        ("Index lookup on %s using %s_idx (user_id=%s.id)" % (t, o, o), t), ("Single-row index lookup on %s using PRIMARY (id=%s.user_id)" % (t, o), t),
        ("Index range scan on %s using idx over (1 < id), with index condition: (%s.id > 1)" % (t, t), t),
        ("Index lookup on %s using i (name='x on y')" % t, t),
        ("Filter: (%s.name = 'a')" % t, t), ("Filter: (%s.title = 'work on monday')" % t, t), ("Filter: (%s.a = %s.on)" % (t, o), t),
        ("Filter: (%s.title = 'Sort: x.y')" % t, t),
        ("Sort: %s.name" % t, t), ("Sort: %s.name DESC, limit input to 10 row(s) per chunk" % t, t), ("Aggregate: count(%s.id)" % t, t),
        ("Nested loop inner join", ""), ("Nested loop left join", ""), ("Inner hash join (%s.id = %s.id)" % (t, o), ""), ("Hash", ""), ("Limit: 5 row(s)", ""),
        ("Limit/Offset: 5/2 row(s)", ""), ("Stream results", ""), ("Group aggregate: count(0)", "?"), ("Table scan on <temporary>", ""), ("Temporary table with deduplication", ""),
        ("Aggregate using temporary table", ""), ("Select #2 (subquery in condition; run only once)", ""), ("Materialize", ""), ("Rows fetched before execution", ""),
        ("Filter: ((%s.a = 1) and (%s.b = 2))" % (t, o), "?")])
    fig = dict.fromkeys(MFIG, "")
    txt = "    " * depth + "-> " + title
    if r.random() < 0.8:
        txt += "  (cost="
        if r.random() < 0.3:
            a, b = num(r), num(r)
            txt += a + ".." + b
            fig.update(estimatedInitCost=canon(a), estimatedCost=canon(b))
        else:
            a = num(r)
            txt += a
            fig["estimatedCost"] = canon(a)
        if r.random() < 0.8:
            n = rows(r)
            txt += " rows=" + n
            fig["estimatedReturnedRows"] = whole(n)
        txt += ")"
    k = r.random()
    if k < 0.75:
        a, b, n, l = num(r), num(r), rows(r), "%d" % r.choice([1, 1, 3, 100, r.randrange(1, 10 ** 9)])
        txt += (" " if ")" in txt[-1:] else "  ") + "(actual time=%s..%s rows=%s loops=%s)" % (a, b, n, l)
        fig.update(actualTimeFirstRow=canon(a), actualTimeAvg=canon(b), actualReturnedRows=whole(n), actualLoopCount=l)
    elif k < 0.9:
        txt += " (never executed)"
    return txt, [fig[f] for f in MFIG], tab


# ---- PostgreSQL ------------------------------------------------------------------------------------------------
INFO = ["Filter: (name = 'a'::text)", "Filter: ((data -> 'x'::text) = '1'::jsonb)", "Index Cond: (id = 3)", "Rows Removed by Filter: 12", "Hash Cond: (a.id = b.user_id)",
        "Buffers: shared hit=5 read=2", "Buckets: 1024  Batches: 1  Memory Usage: 9kB", "Sort Method: quicksort  Memory: 25kB", "Workers Planned: 2", "Heap Fetches: 0",
        "Recheck Cond: (name = 'b'::text)", "Join Filter: (a.title <> 'go on strike'::text)", "One-Time Filter: false", "Heap Blocks: exact=12", "Cache Mode: logical",
        "Full-sort Groups: 3  Sort Method: quicksort  Average Memory: 27kB  Peak Memory: 27kB", "I/O Timings: read=0.123", "Filter: ($1 ->> 'k'::text IS NOT NULL)",
        "Filter: (x ~~ '%-> %'::text)"]
CONT = ["b", "", "Total: 3", "  -> x", "->  Seq Scan on t  (cost=0.00..1.00 rows=1 width=4)", "Planning Time: 1 ms", "        Filter: y", "SubPlan 1", " it was"]  # of a text with line breaks
KEYS = ["Sort Key: %s.name", "Group Key: %s.id", "Presorted Key: %s.a"]
HEADS = ["InitPlan 1 (returns $0)", "SubPlan 1", "SubPlan 2", "CTE w", "InitPlan 2", "CTE big_one"]
SUMS = ["Planning:", "  Buffers: shared hit=10", "Planning Time: 0.123 ms", "Execution Time: 5.4 ms", "JIT:", "  Functions: 4", "  Options: Inlining false, Optimization false",
        "Trigger fk_x: time=0.1 calls=1", "  Timing: Generation 0.5 ms, Total 1.2 ms"]
FIRST_SUM = ["Planning:", "Planning Time: 0.031 ms", "JIT:", "Settings: work_mem = '64MB'", "Execution Time: 0.9 ms", "Query Identifier: 12"]


def pg_node(r, ind, first, be):
    t = r.choice(TABS)
    o = r.choice(TABS)
    q = '"%s"' % t if t != t.lower() else t
    title, tab = r.choice([
        ("Seq Scan on %s" % q, t), ("Seq Scan on %s %s_1" % (q, o), t), ("Index Scan using idx_a on %s" % q, t), ("Index Only Scan using i2 on %s al" % q, t),
        ("Bitmap Heap Scan on %s" % q, t), ("Parallel Seq Scan on %s" % q, t), ("Index Scan Backward using i on %s" % q, t),
        ("Hash Join", ""), ("Nested Loop", ""), ("Nested Loop Left Join", ""), ("Hash", ""), ("Sort", ""), ("Aggregate", ""), ("HashAggregate", ""), ("Finalize Aggregate", ""),
        ("Gather", ""), ("Limit", ""), ("Result", ""), ("Unique", ""), ("Append", ""), ("Merge Join", ""), ("Memoize", ""), ("WindowAgg", "")])
    fig = dict.fromkeys(PFIG, "")
    txt = " " * ind + ("" if first else "->  ") + title
    a, b = ("%.2f" % (r.random() * 10 ** r.choice([0, 2, 6, 10])) for _ in range(2))
    n, w = rows(r, False), "%d" % r.randrange(0, 9999)
    txt += "  (cost=%s..%s rows=%s width=%s)" % (a, b, n, w)
    fig.update(estimatedInitCost=canon(a), estimatedCost=canon(b), estimatedReturnedRows=canon(n), estimatedWidth=canon(w))
    k = r.random()
    if be == "postgres" and k < 0.8:
        a, b = ("%.3f" % (r.random() * 10 ** r.choice([0, 2, 5])) for _ in range(2))
        n, l = r.choice([rows(r, False), rows(r, False), "%.2f" % (r.random() * 100)]), "%d" % r.choice([1, 1, 2, 70000, r.randrange(1, 10 ** 9)])
        txt += " (actual time=%s..%s rows=%s loops=%s)" % (a, b, n, l)
        fig.update(actualTimeFirstRow=canon(a), actualTimeAvg=canon(b), actualReturnedRows=whole(n), actualLoopCount=l)
    elif be == "postgres" and k < 0.9:
        txt += " (never executed)"
    return txt, [fig[f] for f in PFIG], tab


def pg_texts(r, ls, be):
    """Texts, figures and tables for model lines [{k, ind}]; ind 0, 1, 2.. becomes columns."""
    out, ind, insum = [], 0, False
    width = r.choice([2, 2, 6, 3])
    last = 0
    own = None
    for i, l in enumerate(ls):
        if l["k"] == "node":
            col = l["ind"] * width
            x = pg_node(r, col, i == 0, be)
            last = col
            out.append([x[0], x[1], x[2], "node", col])
            own = out[-1]
        elif l["k"] == "head":
            col = l["ind"] * width
            out.append([" " * col + r.choice(HEADS), [], "?", "head", col])
            last = col
        elif l["k"] == "cont":
            end = i + 1 == len(ls) or ls[i + 1]["k"] != "cont"
            txt = r.choice(CONT)
            out.append([txt + (quote + r.choice([":text)", "", ")) AND (b = 'x'::text)"]) if end else ""), [], "?", "cont", 0])
        elif l["k"] == "info":
            if i + 1 < len(ls) and ls[i + 1]["k"] == "cont":
                quote = r.choice(["'", "'", "'", '"'])
                txt = r.choice(["Filter: (note = %s", "Filter: ((a <> 'x'::text) AND (note ~~ %s", "Index Cond: (%s", "Recheck Cond: (x = ANY (%s"]) % (quote + r.choice(["", "a", "it" + 2 * quote + "s ", "first line", '"' if quote == "'" else "'"]))
            elif r.random() < 0.15:
                t = r.choice([x for x in TABS if x == x.lower()])
                if own and own[2] == "" and not own[0].count(" on "):
                    own[2] = t
                txt = r.choice(KEYS) % t
            else:
                txt = r.choice(INFO)
            out.append([" " * (last + 6 if i else 2) + txt, [], "?", "info", last + 6])
        else:
            txt = r.choice(SUMS if insum else FIRST_SUM)
            insum = True
            out.append([txt, [], "?", "sum", 0])
    return out


# ---- scenarios -------------------------------------------------------------------------------------------------
def my_rand(r):
    n = r.choice([1, 2, 3, 5, 8, 13, 30, 60])
    d, prev = [], -1
    down, deep = r.choice([0.4, 0.4, 0.4, 0.9]), r.choice([12, 12, 40])
    for _ in range(n):
        x = min(prev + 1, deep) if r.random() < down else r.randint(0, max(prev + 1, 0))
        d.append(x)
        prev = x
    if r.random() < 0.12:
        k = r.randrange(n)
        d[k] = (d[k - 1] if k else -1) + r.choice([2, 3])
    return d


def pg_rand(r):
    ls = [{"k": "node", "ind": 0}]
    n = r.choice([0, 1, 2, 4, 8, 16, 30, 60])
    depth = 0
    down = r.choice([0.4, 0.4, 0.9])
    for _ in range(n):
        while r.random() < 0.35:
            ls.append({"k": "info", "ind": 0})
            while r.random() < 0.15:
                ls.append({"k": "cont", "ind": 0})
        ind = depth + 1 if r.random() < down else r.randint(1, depth + 1)
        depth = ind
        if r.random() < 0.25:
            ls.append({"k": "head", "ind": ind})
            ind = depth = ind + 1
        ls.append({"k": "node", "ind": ind})
    while r.random() < 0.4:
        ls.append({"k": "info", "ind": 0})
        while r.random() < 0.15:
            ls.append({"k": "cont", "ind": 0})
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        ls.append({"k": "sum", "ind": 0})
    return ls


def flatten(nodes, texts, parent, out, names):
    for n in nodes or []:
        fig = [canon(n.get(f)) for f in names]
        out.append({"text": [texts.get(t, 0) for t in n["text"].split("\n")], "parent": parent, "fig": fig, "tab": n["tableName"]})
        flatten(n["children"], texts, len(out), out, names)


def run(ctx, prop, modes, n_rand, n_model):
    r = ctx.rng
    scs, meta = [], {}

    def add(id, mode, be, ls):
        if mode == "mysql":
            ts = [list(my_line(r, d)) for d in ls]
            plan = [t[0] for t in ts]
            if r.random() < 0.5:
                plan = plan + [""]
            if r.random() < 0.1:
                plan = [""] + plan
            lines = [{"d": d} for d in ls]
        else:
            ts = pg_texts(r, ls, be)
            plan = [t[0] for t in ts]
            lines = [{"k": t[3], "ind": t[4]} for t in ts]
        texts = {}
        for l, t in zip(lines, ts):
            l["t"] = texts.setdefault(t[0], len(texts) + 1)
        q = "SELECT name FROM users WHERE email = 'a'"
        s = suggest(id, be, q, TABLES, plan=plan, **({"sql": q} if be == "hasura" else {}))
        if be == "hasura":
            s["args"][s["args"].index("-q") + 1] = "query { users { name } }"
            s["query"] = "query { users { name } }"
        scs.append(s)
        meta[id] = (mode, be, lines, ts, texts, plan, s)

    for mode in modes:
        if n_model:
            cfg = "SPECIFICATION Spec\nCONSTANTS\n Mode = \"%s\"\n MaxLen = %d\n MaxDepth = %d\nINVARIANTS Machine Emit\n" % (
                mode, *((ctx.pick(6, 8), ctx.pick(3, 4)) if mode == "mysql" else (ctx.pick(6, 7), ctx.pick(2, 3))))
            out, _, _ = ctx.tlc("MCPlan", cfg)
            ps = ctx.printed_json(out, "PLAN")
            if not ps:
                raise CheckError("MCPlan emitted no plan")
            ctx.extra.setdefault("model_plans", {})[mode] = len(ps)
            ps.sort(key=lambda p: json.dumps(p, sort_keys=True))
            if prop == "C13":
                ps = [p for p in ps if not p["bad"]]
            for i, p in enumerate(ps if len(ps) <= n_model else r.sample(ps, n_model)):
                add("m-%s-%d" % (mode, i), mode, "mysql" if mode == "mysql" else r.choice(["postgres", "postgres", "hasura"]), p["ls"])
        for i in range(n_rand):
            if mode == "mysql":
                d = my_rand(r)
                while prop == "C13" and any(x > (d[k - 1] + 1 if k else 0) for k, x in enumerate(d)):
                    d = my_rand(r)
                add("r-my-%d" % i, mode, "mysql", d)
            else:
                add("r-pg-%d" % i, mode, r.choice(["postgres", "postgres", "hasura"]), pg_rand(r))
    res = ctx.drive(scs)
    recs = []
    for s in scs:
        mode, be, lines, ts, texts, plan, _ = meta[s["id"]]
        o = res[s["id"]][0]
        b = report_body(o, be)
        nodes = []
        names = MFIG if mode == "mysql" else PFIG
        if b:
            flatten(b["analyzeNodes"], texts, 0, nodes, names)
        sm = (b or {}).get("summaryText") or ""
        recs.append({"id": s["id"], "mode": mode, "be": be, "lines": lines, "figs": [t[1] for t in ts], "tabs": [t[2] for t in ts], "nodes": nodes,
                     "summary": [texts.get(t, 0) for t in sm.split("\n")] if sm else [], "exit": o["exit"], "report": b is not None, "panic": o["panic"]})
    ctx.samples += ["%s: %d lines -> %d nodes" % (x["be"], len(x["lines"]), len(x["nodes"])) for x in recs[:3] + recs[-3:]]
    ctx.extra["random_plans"] = n_rand * len(modes)
    ctx.judge("JPlan", recs, {"Prop": '"%s"' % prop}, lambda i: {"plan": meta[i][5], "scenario": meta[i][6], "stderr": res[i][0]["stderr"][-500:]})


def c11(ctx):
    run(ctx, "C11", ["mysql"], ctx.pick(400, 6000), ctx.pick(900, 12000))


def c12(ctx):
    run(ctx, "C12", ["pg"], ctx.pick(500, 6000), ctx.pick(900, 12000))


def c13(ctx):
    run(ctx, "C13", ["mysql", "pg"], ctx.pick(600, 8000), ctx.pick(100, 500))
