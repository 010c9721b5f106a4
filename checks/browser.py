"""C26-C33: the pages of the report (specs: Shell, SqlText, Timeline, Diagram, Loads, Shown; JClient judges)."""
import json, math, re
from vlib import CheckError
import scen as S
import client as W

CHARS = lambda s: list(s)
HOUR = 3600000
BASE = 1700006400000
ODD = ["日本", "é", "users", "Order Items", "it's", 'a"b', "a`b", "$HOME", "$(id)", "${x}", "a\\b", "\\n", "a\nb", "a\\", "--", "-x", "a=b", "&&", ";", "|", ">", "*", "~", "#c", "a b  c", "'", "''", '"', "`id`", "\t", "order",
       "select", "userId", "1a", "$1", "a$b", "%s", "\\'", "\\\"", "{a,b}", "[a]", "?", "\U0001F600", "a,b", "(x)", "x)", "a;b"]


def model(ctx, module, consts, tag, invs=("Lemma", "Emit")):
    cfg = "SPECIFICATION Spec\n" + "".join("INVARIANT %s\n" % i for i in invs) + "CONSTANTS\n" + "".join(" %s = %s\n" % kv for kv in consts.items())
    out, _, _ = ctx.tlc(module, cfg)
    rows = ctx.printed_json(out, tag)
    if not rows:
        raise CheckError(module + " printed nothing")
    rows.sort(key=json.dumps)
    return rows


def texts(ctx, module, tag, n, quick, thorough, invs=("Lemma", "Emit")):
    """All texts of length 1..n-1 of the model, and a choice of those of length n."""
    res = []
    for k in range(1, n + 1):
        m = {"MaxLen": k, "Show": "TRUE"}
        rows = ["".join(w) for w in model(ctx, module, m, tag, invs)]
        if k == n:
            lim = ctx.pick(quick, thorough)
            if len(rows) > lim:
                rows = ctx.rng.sample(rows, lim)
        res += rows
    return res


def some(r, pool):
    return r.choice(pool) if r.random() < 0.7 else r.choice(pool) + r.choice(["", " ", "x"]) + r.choice(ODD)


def judge(ctx, prop, recs, scens):
    def describe(i):
        return {"page": scens.get(i.split("/")[0])}
    ctx.judge("JClient", recs, {"Prop": '"%s"' % prop}, describe=describe)
    if not ctx.samples:
        ctx.samples = [json.dumps(x)[:400] for x in ctx.rng.sample(recs, min(4, len(recs)))]


def suggest_param(be, **kw):
    d = dict(query=" SELECT 1", analyzeNodes=None, indexTargets=None, examinationCommandOptions=[], examinationResult=None)
    if be != "mysql":
        d["summaryText"] = ""
    if be == "hasura":
        d.update(gql="", gqlVariables={})
    d.update(kw)
    return {"suggestData": {be: {"postgres": d} if be == "hasura" else d}}


def target(t, cols):
    return {"tableName": t, "columns": [{"name": c} for c in cols]}


def crash(o):
    return o.get("crash") or ""


def codes(o, card):
    return [c["text"] for c in o["codes"] if c["card"] == card]


# ---- C26 ------------------------------------------------------------------------------------------------------
SUB = {"mysql": ["mysql"], "postgres": ["postgres"], "hasura": ["hasura", "postgres"]}


def suggest_page(r, id, be, pool, given=None):
    n = r.choice([1, 1, 2, 3, 0] if given is None else [1, 2])
    name = lambda: some(r, pool)
    if given is not None:
        it = iter(given)
        name = lambda: next(it, None) or some(r, pool)
    tg = [(name(), [name() for _ in range(r.choice([1, 1, 2, 3]))]) for _ in range(n)]
    if n > 1 and r.random() < 0.2:
        tg[1] = tg[0] if r.random() < 0.5 else (tg[0][0], tg[0][1] + ["zz"])
    opts = [dict(isShort=True, name="o", value=name()), dict(isShort=True, name="q", value=name())]
    if be == "hasura" and r.random() < 0.6:
        opts.append(dict(isShort=False, name="json-variables", value=name()))
    if r.random() < 0.3:
        r.shuffle(opts)
    if r.random() < 0.1:
        opts = [o for o in opts if r.random() < 0.5]
    ticks = [r.randrange(n) for _ in range(r.choice([0, 1, 2, 4]))] if n else []
    if n and r.random() < 0.2:
        ticks = list(range(n))            # everything unticked
    sc = dict(id=id, entry="main", param=suggest_param(be, indexTargets=[target(*t) for t in tg], examinationCommandOptions=opts),
              steps=[dict(do="check", i=k, card="suggest") for k in ticks])
    return sc, (be, tg, opts, ticks)


def suggest_recs(id, info, obs):
    be, tg, opts, ticks = info
    on = [True] * len(tg)
    for k, o in enumerate(obs):
        if k:
            on[ticks[k - 1]] = not on[ticks[k - 1]]
        rec = dict(id="%s/%d" % (id, k), crash=crash(o), kind="suggest", text=[], sub=SUB[be],
                   idx=[dict(t=CHARS(t), cols=[CHARS(c) for c in cs]) for (t, cs), x in zip(tg, on) if x],
                   opts=[dict(short=p["isShort"], n=CHARS(p["name"]), v=CHARS(p["value"])) for p in opts])
        if not rec["crash"]:
            c = codes(o, "suggest")
            rec["text"] = CHARS("\n".join(c))
        yield rec


def load(sql, mx, sm=None, tok="k"):
    return dict(sql=sql, loadMax=mx, loadSum=mx if sm is None else sm, tokenizedId=tok)


def hours_param(hours):
    """hours: list of {db: [load]}"""
    return [dict(timestamp=BASE + HOUR * k, databases=[dict(name=d, sqls=v) for d, v in h.items()]) for k, h in enumerate(hours)]


def pi_param(plain, tok):
    return {"digData": {"performanceInsights": {"sqlDbLoads": hours_param(plain), "tokenizedSqlDbLoads": hours_param(tok)}}}


def pi_page(r, id, pool, given=None):
    """A report of loads and clicks on its bars; every statement belongs to one database only."""
    it = iter(given or [])
    seen = set()

    def fresh():
        while True:
            x = next(it, None) or some(r, pool)
            if x not in seen:
                seen.add(x)
                return x
    dbs = [fresh() for _ in range(r.choice([1, 2, 2]))]
    while any(d in ("__proto__", "constructor") for d in dbs):
        dbs = [fresh() for _ in dbs]
    plain = {d: [fresh() for _ in range(r.choice([1, 2, 3]))] for d in dbs}
    hs = []
    for _ in range(r.choice([1, 2, 3])):
        h = {}
        for d in dbs:
            l = [load(s, r.randrange(8, 1024) / 1024, r.randrange(8, 9999) / 1024, "k%d" % dbs.index(d)) for s in plain[d] if r.random() < 0.8]
            if l:
                h[d] = l
        hs.append(h)
    if not any(hs):
        hs[0] = {dbs[0]: [load(plain[dbs[0]][0], 0.5, 1, "k0")]}
    tk = [{d: [load("tok " + d, 0.5, 1, "k%d" % dbs.index(d))] for d in h} for h in hs]
    return dict(id=id, entry="main", param=pi_param(hs, tk), steps=[]), (dbs, hs, {s: d for d in dbs for s in plain[d]})


def c26(ctx):
    pool = texts(ctx, "MCShell", "TEXT", 3, 700, 3375) + ODD
    pages, info = {}, {}
    r = ctx.rng
    order = pool[:]
    r.shuffle(order)
    step = 4
    k = 0
    for i in range(0, len(order), step):
        be = S.BACKENDS[k % 3]
        id = "s%d" % k
        pages[id], info[id] = suggest_page(r, id, be, pool, order[i:i + step])
        k += 1
    for _ in range(ctx.pick(200, 4000)):
        id = "s%d" % k
        pages[id], info[id] = suggest_page(r, id, S.BACKENDS[k % 3], pool)
        k += 1
    # the reports of loads: first look where the bars are, then click them
    looks = {}
    for i in range(0, len(order), 3):
        id = "p%d" % (i // 3)
        looks[id], info[id] = pi_page(r, id, pool, order[i:i + 3])
    first = W.run(ctx, looks.values())
    for id, sc in looks.items():
        o = first[id][0]
        if crash(o):
            pages[id] = sc
            info[id] = (info[id], [])
            continue
        steps, plan = [], []
        for _ in range(r.choice([1, 2, 3])):
            c = r.randrange(min(2, len(o["charts"]))) if o["charts"] else None
            if c is None:
                continue
            pts = [(s, d, p["x"] if x["name"] is None else x["name"], p["y"]) for s, x in enumerate(o["charts"][c]["series"]) for d, p in enumerate(x["data"])]
            pts = [p for p in pts if p[3]]
            if not pts:
                continue
            s, d, sql, _ = r.choice(pts)
            steps.append(dict(do="bar", chart=c, s=s, d=d))
            plan.append((c, sql))
        if r.random() < 0.6:
            steps.append(dict(do="button", label="Tokenized"))
            plan.append(("tab", None))
            hs = info[id][1]
            shown = min({d for h in hs for d in h}, key=lambda d: d.encode("utf-16-be"))
            at = next(k for k, h in enumerate(hs) if shown in h)
            for _ in range(2):
                c = r.randrange(2)
                steps += [dict(do="bar", chart=c, s=0, d=at if c else 0), dict(do="radio", i=0)]
                plan += [("tbar", c), ("radio", c)]
                if r.random() < 0.5:
                    break
        pages[id] = dict(sc, steps=steps)
        info[id] = (info[id], plan)
    obs = W.run(ctx, pages.values())
    recs = []
    for id, sc in pages.items():
        if id[0] == "s":
            recs += suggest_recs(id, info[id], obs[id])
        else:
            recs += pi_recs(id, info[id], obs[id])
    judge(ctx, "C26", recs, pages)


def pi_recs(id, info, obs):
    (dbs, hs, owner), plan = info
    sel = {}                              # what is chosen for each chart of the tab shown
    for k, o in enumerate(obs):
        if k:
            p = plan[k - 1]
            if p[0] == "tab":
                sel = {}
            elif p[0] == "tbar":
                sel.pop(p[1], None)
            elif p[0] == "radio":
                # radios of all tables shown: the first one belongs to the first table
                rows = [t["rows"] for t in (o.get("tables") or []) if t["rows"]]
                if not o.get("crash") and rows and any(x["on"] for x in o["radios"]):
                    n = 0
                    for ti, t in enumerate(rows):
                        cells = [[c for c in row if not c["h"]] for row in t]
                        for c in cells:
                            if len(c) == 5:
                                if n < len(o["radios"]) and o["radios"][n]["on"]:
                                    which = 0 if len(rows) > 1 and ti == 0 else (1 if len(rows) > 1 else [x[1] for x in plan[:k - 1] if x[0] == "tbar"][-1])
                                    sel[which] = c[4]["raw"]
                                n += 1
            else:
                sel[p[0]] = p[1]
        cs = [c["text"] for c in o.get("codes", [])]
        for c in range(2):
            x = sel.get(c)
            rec = dict(id="%s/%d.%d" % (id, k, c), crash=crash(o), kind="pi", text=[], sel=x is not None, db=[], sql=[])
            if not rec["crash"]:
                rec["text"] = CHARS(cs[c] if c < len(cs) else "")
                if x is not None:
                    sql = x if x in owner else x.strip()
                    rec["db"], rec["sql"] = CHARS(owner.get(sql, "?")), CHARS(sql)
            yield rec


# ---- C27 ------------------------------------------------------------------------------------------------------
def exam_page(r, id, be, tg, orig=None, times=None, **kw):
    times = times or [3 + 7 * k for k in range(len(tg))]
    res = dict(originalTimeMillis=1100 if orig is None else orig,
               indexResults=[dict(executionTimeMillis=t, indexTarget=target(*x)) for t, x in zip(times, tg)])
    return dict(id=id, entry="main", param=suggest_param(be, indexTargets=[target(*x) for x in tg], examinationResult=res, **kw), steps=[])


def exam_rows(o):
    t = [t for t in o["tables"] if t["card"] == "examination"]
    return [[c for c in row if not c["h"]] for row in t[0]["rows"] if any(not c["h"] for c in row)] if len(t) == 1 else []


def c27(ctx):
    r = ctx.rng
    pool = texts(ctx, "MCSqlText", "NAME", 3, 600, 1728, ("Lemma", "Bare", "Emit")) + ODD + ["group", "key", "rank", "User", "a.b", "id", "order", "tbl;drop"]
    order = pool[:]
    r.shuffle(order)
    pages, info, recs = {}, {}, []
    k = 0
    for i in range(0, len(order), 2):
        for be in S.BACKENDS if ctx.thorough or i % 6 == 0 else (S.BACKENDS[(i // 2) % 3],):
            a, b = order[i], order[(i + 1) % len(order)]
            tg = [(a, [b]), ("users", [a, "id", b]), (b, [some(r, pool), some(r, pool)])]
            tg = tg[:r.choice([1, 2, 3])]
            id = "x%d" % k
            k += 1
            sc = exam_page(r, id, be, tg)
            if be == "hasura":
                sc["steps"] = [dict(do="button", label="Copy as Curl", i=j) for j in range(len(tg))]
            pages[id], info[id] = sc, (be, tg)
    obs = W.run(ctx, pages.values())
    for id, (be, tg) in info.items():
        o = obs[id][0]
        d = "mysql" if be == "mysql" else "postgres"
        rows = [] if crash(o) else exam_rows(o)[1:]
        if not crash(o) and len(rows) != len(tg):
            rows = rows + [[]] * len(tg)
        for j, (t, cs) in enumerate(tg):
            base = dict(crash=crash(o), d=d, t=CHARS(t), cols=[CHARS(c) for c in cs])
            txt = rows[j][3]["raw"].strip() if rows and len(rows[j]) > 3 else ""
            recs.append(dict(base, id="%s/s%d" % (id, j), kind="sql", text=CHARS(txt)))
            if be == "hasura":
                last = obs[id][-1]
                c = last.get("clip", [])
                if not crash(last) and not c:
                    raise CheckError("nothing was copied")
                recs.append(dict(base, id="%s/c%d" % (id, j), kind="curl", crash=crash(last), text=CHARS(c[j] if j < len(c) else "")))
    judge(ctx, "C27", recs, pages)


# ---- C28 ------------------------------------------------------------------------------------------------------
def jsnum(x):
    if x is None:
        return "-"
    return str(int(x)) if float(x) == int(x) else repr(float(x))


def u(x):
    return None if x is None or x < 0 else x / 10000


def plan_nodes(r, be, seq):
    """seq: [dep, avg, loops, cost] in the order of the text -> (data of the page, nodes of the record)"""
    flat = []
    for k, (dep, avg, loops, cost) in enumerate(seq):
        tab = r.choice([None, "users", "t1", "x <b>"]) if be != "mysql" or r.random() < 0.7 else ""
        first = None if avg < 0 else r.choice([0, 0, u(avg), 0.001])
        rws = r.choice([0, 1, 42, 1e6, 2.5])
        none = avg < 0
        d = dict(text="  " * dep + "-> node %d" % k, title="title %d" % k, tableName=tab, estimatedInitCost=r.choice([0, 0.25, 12.5]), estimatedCost=u(cost),
                 estimatedReturnedRows=rws, children=None)
        fig = {"Table": tab or "-", "Cost (estimated)": jsnum(d["estimatedCost"]), "Rows returned (estimated)": jsnum(rws)}
        if be == "mysql":
            if r.random() < 0.2:
                d.update(estimatedInitCost=None, estimatedCost=None, estimatedReturnedRows=None)
                fig.update({"Cost (estimated)": "-", "Rows returned (estimated)": "-"})
        else:
            d["estimatedWidth"] = r.choice([0, 4, 32, 1024])
            fig.update({"Initial cost (estimated)": jsnum(d["estimatedInitCost"]), "Width (estimated)": jsnum(d["estimatedWidth"])})
        if be != "hasura":
            ret = None if none else r.choice([0, 3, 65536])
            lp = None if loops < 0 else loops
            d.update(actualTimeFirstRow=first, actualTimeAvg=u(avg), actualReturnedRows=ret, actualLoopCount=lp)
            fig.update({"Rows returned (actual)": jsnum(ret), "Loop count (actual)": jsnum(lp)})
            if be == "mysql":
                fig["Time first row (actual)"] = jsnum(first)
            else:
                fig["Time (actual)"] = "-" if first is None else "%s ~ %s" % (jsnum(first), jsnum(u(avg)))
        flat.append((dep, d, dict(text=d["text"], title=d["title"], fig=fig, avg=avg, loops=loops, cost=cost, kids=[])))
    roots, nodes, st = [], [], []
    for dep, d, n in flat:
        del st[dep:]
        if not st:
            roots.append(d); nodes.append(n)
        else:
            pd, pn = st[-1]
            pd["children"] = (pd["children"] or []) + [d]
            pn["kids"].append(n)
        st.append((d, n))
    return roots, nodes, [d["text"] for _, d, _ in flat]


def fix(x):
    """In units of 0.0001 (a number that is none comes out as something no plan has)."""
    if not isinstance(x, (int, float)) or not math.isfinite(x):
        return -987654321
    v = round(x * 10000)
    return v if abs(x * 10000 - v) < 0.001 + abs(v) * 1e-9 else -987654321


def strip_tags(h):
    h = re.sub(r"<!--.*?-->", "", h, flags=re.S)
    h = re.sub(r"<[a-zA-Z/][^>]*>", "", h)
    for a, b in (("&lt;", "<"), ("&gt;", ">"), ("&quot;", '"'), ("&#39;", "'"), ("&nbsp;", " "), ("&amp;", "&")):
        h = h.replace(a, b)
    return re.sub(r"\s+", " ", h).strip()


def figs_of(tip):
    t = strip_tags(tip or "")
    pat = re.compile(r"(Initial cost \(estimated\)|(?<!Initial )[Cc]ost \(estimated\)|Rows returned \((?:estimated|actual)\)|Width \(estimated\)|Time first row \(actual\)|Time per loop \(actual\)|Time \(actual\)|Loop count \(actual\)|Table)\s*:\s*")
    ms = list(pat.finditer(t))
    res = {}
    for k, m in enumerate(ms):
        end = ms[k + 1].start() if k + 1 < len(ms) else len(t)
        res.setdefault(m.group(1), t[m.end():end].strip())
    return res


def c28(ctx):
    r = ctx.rng
    plans = []
    for n in range(1, ctx.pick(3, 4) + 1):
        rows = model(ctx, "MCTimeline", {"MaxN": n, "Show": "TRUE"}, "PLAN")
        if len(rows) > ctx.pick(700, 9000):
            rows = r.sample(rows, ctx.pick(700, 9000))
        plans += [[(x["dep"], x["avg"], x["loops"], r.choice([0, 7, 84700, 12])) for x in p] for p in rows]
    for _ in range(ctx.pick(150, 3000)):
        seq, dep = [], 0
        for k in range(r.choice([2, 4, 6, 9, 14])):
            dep = r.randrange(0, dep + 2) if k else 0
            if r.random() < 0.15:
                seq.append((dep, -1, -1, r.randrange(10 ** 6)))
            else:
                avg, loops = r.choice([0, 1, 10, r.randrange(10 ** 5), r.randrange(4 * 10 ** 5)]), r.choice([0, 1, 1, 2, 3, 999, 1000, 1001, 5000])
                # (the times of a plan add up below 2^31, which is as far as TLC counts)
                seq.append((dep, min(avg, 14 * 10 ** 7 // max(loops, 1)), loops, r.randrange(10 ** 6)))
        plans.append(seq)
    pages, info = {}, {}
    for k, seq in enumerate(plans):
        for be in (S.BACKENDS if len(seq) < 3 else (S.BACKENDS[k % 3],)):
            id = "t%d-%s" % (k, be)
            roots, nodes, lines = plan_nodes(r, be, seq)
            summ = r.choice(["", "Planning Time: 0.1 ms\nExecution Time: 2 ms"]) if be == "postgres" else ""
            kw = {} if be == "mysql" else {"summaryText": summ}
            hv = r.sample(range(len(lines)), min(len(lines), 2)) if r.random() < 0.5 else []
            pages[id] = dict(id=id, entry="main", param=suggest_param(be, analyzeNodes=roots, **kw),
                             steps=[dict(do="tips", chart=0), dict(do="labels", chart=0)] + [dict(do="hover", chart=0, s=0, d=h) for h in hv])
            info[id] = (be, nodes, lines, summ, hv)
    obs = W.run(ctx, pages.values())
    recs = []
    for id, (be, nodes, lines, summ, hv) in info.items():
        os_ = obs[id]
        bad = next((crash(o) for o in os_ if crash(o)), "")
        rec = dict(id=id, crash=bad, d=be, nodes=nodes, lines=[], trail="", summary=summ, bars=[], hovers=[], labels=[], tips=[])
        if not bad:
            o = os_[0]
            sp = lambda x: [s for s in x["spans"] if s["card"] == "explain"]
            tx = [s["text"] for s in sp(o)]
            cut = tx.index("-----------") if "-----------" in tx else len(tx)
            rec["lines"] = tx[:cut]
            rec["trail"] = "\n".join(tx[cut + 1:])
            data = [p for ch in o["charts"][:1] for x in ch["series"] for p in x["data"]]
            for p in data:
                y = p["y"] if isinstance(p["y"], list) and len(p["y"]) == 2 else [None, None]
                g = (p.get("goals") or [{}])[0].get("value")
                rec["bars"].append(dict(s=fix(y[0]), e=fix(y[1]), goal=fix(g)))
            tips = [t for x in (os_[1].get("ret") or []) for t in x]
            labs = [t for x in (os_[2].get("ret") or []) for t in x]
            # bars are drawn in the order of their places
            for k, t in enumerate(tips):
                rec["tips"].append(dict(k=k + 1, shown=figs_of(t)))
            for k, t in enumerate(labs):
                rec["labels"].append(dict(k=k + 1, title=str(t)))
            for h, oo in zip(hv, os_[3:]):
                rec["hovers"].append(dict(k=h + 1, bold=[j + 1 for j, s in enumerate(sp(oo)) if s["bold"]]))
        recs.append(rec)
    judge(ctx, "C28", recs, pages)


# ---- C29 ------------------------------------------------------------------------------------------------------
def span(svc, a, b, kids=()):
    return dict(name="n", spanId="s", startTimeMillis=a, endTimeMillis=b, serviceName=svc, children=list(kids))


def tree(p, names=None):
    """depth sequence [dep, svc] -> (span for the page, node of the record)"""
    st = []
    for x in p:
        svc = (names or {}).get(x["svc"], x["svc"])
        s, n = span(svc, 0, 1), dict(svc=svc, kids=[])
        del st[x["dep"]:]
        if st:
            st[-1][0]["children"].append(s)
            st[-1][1]["kids"].append(n)
        st.append((s, n))
        if len(st) == 1:
            root = st[0]
    return root


def parse_diagram(text):
    out, alias = [], {}
    for l in re.split(r"[\r\n]+", text):
        l = l.strip()
        m = re.fullmatch(r"(?:participant|actor) (.+?)(?: as (.+))?", l)
        if m:
            alias[m.group(1)] = m.group(2) or m.group(1)
            continue
        m = re.fullmatch(r"(activate|deactivate) (.+)", l)
        if m:
            out.append(dict(k="act" if m.group(1) == "activate" else "deact", a=m.group(2), b="", n=0))
            continue
        m = re.fullmatch(r"(.+?)\s*-?->>([+-]?)\s*(.+?)\s*:(.*)", l)
        if m:
            a, sign, b, t = m.groups()
            more = re.fullmatch(r"\s*More (\d+) times.*", t)
            if t.strip() == "" and out and (out[-1]["n"] > 0 or out[-1]["k"] == "more"):
                continue                      # arrows that only stand for those repeated
            if sign == "-":
                out.append(dict(k="deact", a=a, b="", n=0))
            out.append(dict(k="call", a=a, b=b, n=int(more.group(1)) if more else 0))
            if sign == "+":
                out.append(dict(k="act", a=b, b="", n=0))
    for e in out:
        e["a"], e["b"] = alias.get(e["a"], e["a"]), alias.get(e["b"], e["b"])
    return out


def digits(t):
    s = re.sub(r"[^\d-]", "", t.split(".")[0])
    return int(s) if re.fullmatch(r"-?\d+", s) else -1


def c29(ctx):
    r = ctx.rng
    pages, info, recs = {}, {}, []
    forests = []
    for n in range(1, ctx.pick(6, 8) + 1):
        rows = model(ctx, "MCDiagram", {"MaxN": n, "Show": "TRUE"}, "TREE")
        if len(rows) > ctx.pick(400, 6000):
            rows = r.sample(rows, ctx.pick(400, 6000))
        forests += rows
    svcs = ["front", "back", "users-api", "db", "cache_1", "Mail", "orders", "x1", "repeat"]
    for _ in range(ctx.pick(200, 4000)):
        p, dep = [dict(dep=0, svc="r")], 0
        for _ in range(r.choice([3, 6, 9, 12, 20])):
            dep = r.randrange(1, dep + 2) if r.random() < 0.4 else max(1, dep)
            p.append(dict(dep=dep, svc=r.choice(["a", "a", "a", "b", "c", "r"])))
        forests.append(p)
    k = 0
    while forests:
        names = dict(zip("abcr", r.sample(svcs, 4))) if r.random() < 0.8 else {}
        traces = []
        for j in range(min(len(forests), r.choice([1, 1, 2, 3, 7]))):
            s, n = tree(forests.pop(), names)
            a = BASE + r.randrange(10 ** 6)
            s["startTimeMillis"], s["endTimeMillis"] = a, a + r.choice([0, 1, 999, 1000, 1001, r.randrange(100), r.randrange(10 ** 7)])
            traces.append((dict(traceId="t%d%s" % (j, r.choice(["", "00ff", "ABC"])), sameServiceAccessCount=r.choice([0, 1, 5, 1234]), timeConsumingServiceName=r.choice(svcs), root=s), n))
        base, ui = r.choice([("http://localhost:16686",) * 2, ("https://j.example.com/jaeger",) * 2, ("https://j.example.com/a/b/", "https://j.example.com/a/b"), ("http://[::1]:16686",) * 2])
        cut = r.randrange(len(traces) + 1)
        lists = [traces[:cut], traces[cut:]]
        for i in range(len(traces)):
            if i and not ctx.thorough and i > 2:
                break
            id = "j%d-%d" % (k, i)
            pages[id] = dict(id=id, entry="mermaid", steps=[dict(do="button", label="Show diagram", i=i)],
                             param={"digData": {"jaeger": dict(uiPath=base, slowThresholdMilli=1000, sameServiceThreshold=5, slowTraces=[t for t, _ in lists[0]], sameServiceTraces=[t for t, _ in lists[1]])}})
            info[id] = (lists, ui, i)
        k += 1
    obs = W.run(ctx, pages.values())
    for id, (lists, ui, i) in info.items():
        o = obs[id][0]
        shown = []
        for card, ts in zip(("slowTraces", "sameServiceTraces"), lists):
            rec = dict(id="%s/%s" % (id, card), kind="table", crash=crash(o), traces=[], rows=[])
            if not rec["crash"]:
                for t, _ in ts:
                    rec["traces"].append(dict(id=t["traceId"], dur=t["root"]["endTimeMillis"] - t["root"]["startTimeMillis"], cnt=t["sameServiceAccessCount"],
                                              svc=t["timeConsumingServiceName"], link=ui + "/trace/" + t["traceId"]))
                for tb in o["tables"]:
                    if tb["card"] != card:
                        continue
                    for row in tb["rows"]:
                        c = [x for x in row if not x["h"]]
                        if len(c) >= 6:
                            rec["rows"].append(dict(id=c[0]["text"], dur=digits(c[1]["text"]), cnt=digits(c[2]["text"]), svc=c[3]["text"], link=c[5]["href"]))
                            shown.append(c[0]["text"])
            recs.append(rec)
        if not crash(o):
            o = obs[id][-1]
            byid = {t["traceId"]: n for ts in lists for t, n in ts}
            rec = dict(id=id + "/d", kind="diagram", crash=crash(o), root=byid.get(shown[i] if i < len(shown) else "", dict(svc="?", kids=[])), diagram=[])
            if not rec["crash"]:
                rec["diagram"] = parse_diagram(o["diagrams"][-1]) if o["diagrams"] else []
            recs.append(rec)
    judge(ctx, "C29", recs, pages)


# ---- C30 ------------------------------------------------------------------------------------------------------
def h_loads(hours):
    """hours: list of lists of entries -> param hours"""
    res = []
    for h in hours:
        d = {}
        for e in h:
            d.setdefault(e["db"], []).append(load(e["sql"], e["max"] / 1024, e["sum"] / 1024, e["tok"]))
        res.append(d)
    return res


def tip_db(t):
    m = re.search(r"Database:\s*(.*?)<br", t or "", re.S)
    return strip_tags(m.group(1)) if m else "?"


def k1024(y):
    v = round(y * 1024) if isinstance(y, (int, float)) and math.isfinite(y) else -1
    return v if v >= 0 and abs(y * 1024 - v) < 1e-6 * max(1, v) else -1


def hour_of(x):
    if isinstance(x, str):
        from email.utils import parsedate_to_datetime
        try:
            x = parsedate_to_datetime(x).timestamp() * 1000
        except Exception:
            return 0
    if not isinstance(x, (int, float)):
        return 0
    return int((x - BASE) // HOUR) + 1 if (x - BASE) % HOUR == 0 else 0


def chart_pts(o, c, tips):
    """points of a chart: series of [(x, y, db)], with the names of the series"""
    ch = o["charts"][c]
    return [(s["name"], [(p["x"], p["y"], tip_db(tips[i][j]) if p["y"] else None) for j, p in enumerate(s["data"])]) for i, s in enumerate(ch["series"])]


def c30(ctx):
    r = ctx.rng
    cases = []
    for n in range(1, ctx.pick(3, 4) + 1):
        rows = model(ctx, "MCLoads", {"MaxN": n, "Show": "TRUE"}, "LOADS", ("Lemma", "Emit"))
        lim = ctx.pick(250, 5000)
        if len(rows) > lim:
            rows = r.sample(rows, lim)
        for es in rows:
            cases.append([[dict(e, sum=r.choice([e["max"], e["max"] * 2, 1])) for e in es if e["h"] == h] for h in (1, 2)])
    for _ in range(ctx.pick(120, 2500)):
        dbs = r.sample(["app", "App2", "db_10", "db_9", "zz"], r.choice([1, 2, 3]))
        stm = ["SELECT %d" % k for k in range(r.choice([2, 5, 24, 30]))]
        hs = []
        for h in range(1, r.choice([1, 2, 3, 6, 25]) + 1):
            hs.append([dict(h=h, db=d, sql=s, tok="", max=m, sum=r.choice([m, m * r.randrange(1, 9), r.randrange(1, 99)]))
                       for d in dbs for s in stm if r.random() < 0.3 for m in [r.choice([1, 4, 5, 6, 7, 100, r.randrange(1, 1024), r.randrange(1, 4000), 512])]])
        if any(hs):
            cases.append(hs)
    pages, info = {}, {}
    for k, hs in enumerate(cases):
        id = "l%d" % k
        # the plain statements of a tokenized one; some tokenized ones have none
        tok = [[dict(e, tok="k" + e["sql"]) for e in h] for h in hs]
        raw = [[dict(e, sql=e["sql"] + "-%d" % j, tok="k" + e["sql"], max=m, sum=m, h=hh) for e in h for j in range(r.choice([0, 1, 1, 2, 12 if k % 5 == 0 else 3]))
                for m in [r.choice([e["max"], r.randrange(1, 2000), 77])]] for hh, h in enumerate(hs, 1)]
        plain_first = k % 2 == 0
        data = hs if plain_first else tok
        if plain_first:
            data = [[dict(e, tok="k" + e["sql"]) for e in h] for h in hs]
        dbs = sorted({e["db"] for h in data for e in h})
        steps, plan, on = [], [], {0: [dbs[0]], 1: [dbs[0]]}
        cards = ("sqls", "timeline") if plain_first else ("Heaviest Tokenized SQLs", "Heavy Tokenized SQL Timeline")
        if not plain_first:
            steps.append(dict(do="button", label="Tokenized"))
            plan.append(None)
        look = lambda: (steps.extend([dict(do="tips", chart=0), dict(do="tips", chart=1)]), plan.extend([("tips", 0, list(on[0])), ("tips", 1, list(on[1]))]))
        look()
        if len(dbs) > 1:
            for _ in range(r.choice([1, 2, 3])):
                c, b = r.randrange(2), r.randrange(len(dbs))
                d = dbs[b]
                on[c] = [x for x in on[c] if x != d] if d in on[c] else on[c] + [d]
                steps.append(dict(do="check", card=cards[c], i=b))
                plan.append(("box", dict((q, list(v)) for q, v in on.items())))
                look()
        pages[id] = dict(id=id, entry="main", param=pi_param(h_loads(data), h_loads(data)) if plain_first else pi_param(h_loads(raw), h_loads(tok)), steps=steps)
        info[id] = (data, raw, dbs, plain_first, plan, cards)
    obs = W.run(ctx, pages.values())
    # then the plain statements of a bar
    more = {}
    for id, (data, raw, dbs, pf, plan, cards) in list(info.items()):
        if pf or any(crash(o) for o in obs[id]):
            continue
        o = obs[id][1]
        steps, clicks = [dict(do="button", label="Tokenized")], []
        for c in range(2):
            pts = [(s, d, p["x"] if x["name"] is None else x["name"]) for s, x in enumerate(o["charts"][c]["series"]) for d, p in enumerate(x["data"]) if p["y"]] if c < len(o["charts"]) else []
            if pts:
                s, d, sql = r.choice(pts)
                steps.append(dict(do="bar", chart=c, s=s, d=d))
                clicks.append((c, "k" + sql))
        more["m" + id] = dict(id="m" + id, entry="main", param=pages[id]["param"], steps=steps)
        info["m" + id] = (raw, clicks)
    obs2 = W.run(ctx, more.values()) if more else {}
    recs = []
    for id in pages:
        data, raw, dbs, pf, plan, cards = info[id]
        os_ = obs[id]
        bad = next((crash(o) for o in os_ if crash(o)), "")
        if bad:
            recs.append(dict(id=id, kind="ranking", crash=bad, hours=[], dbs=[], bars=[]))
            continue
        for k, p in enumerate(plan):
            o = os_[k + 1]
            rid = "%s/%d" % (id, k)
            if p is None:
                continue
            if p[0] == "box":
                for c in range(2):
                    got = [b["label"] + (":on" if b["on"] else ":off") for b in o["checks"] if b["card"] == cards[c]]
                    want = [d + (":on" if d in p[1][c] else ":off") for d in dbs] if len(dbs) > 1 else []
                    recs.append(dict(id="%s.%d" % (rid, c), kind="boxes", crash="", boxes=got, want=want))
                continue
            c, on = p[1], p[2]
            if c >= len(o["charts"]):
                recs.append(dict(id=rid, kind="boxes", crash="", boxes=["no chart"], want=["a chart"]))
                continue
            pts = chart_pts(o, c, o["ret"])
            if c == 0:
                bars = [dict(db=q[2] or "?", sql=q[0], y=k1024(q[1])) for _, ps in pts for q in ps]
                if any(b["y"] == 0 for b in bars):
                    raise CheckError("a bar without load")
                recs.append(dict(id=rid, kind="ranking", crash="", hours=data, dbs=on, bars=bars))
            else:
                ser = [dict(db=next((q[2] for q in ps if q[2]), "?"), sql=nm, data=[dict(x=hour_of(q[0]), y=k1024(q[1])) for q in ps]) for nm, ps in pts]
                recs.append(dict(id=rid, kind="series", crash="", hours=data, dbs=on, series=ser))
    for id in more:
        raw, clicks = info[id]
        for k, (c, tok) in enumerate(clicks):
            o = obs2[id][k + 2] if k + 2 < len(obs2[id]) else {"crash": "lost"}
            rec = dict(id="%s/%d" % (id, k), kind="raw", crash=crash(o), raw=raw, tok=tok, rows=[])
            if not rec["crash"]:
                tb = o["tables"]
                t = tb[c] if len(tb) == 2 else tb[-1] if tb else {"rows": []}
                for row in t["rows"]:
                    cells = [x for x in row if not x["h"]]
                    if len(cells) == 5:
                        pct = re.sub(r"[^\d.]", "", cells[2]["text"])
                        rec["rows"].append(dict(db=cells[1]["text"], pct=round(float(pct) * 100) if pct else -1, h=hour_of(cells[3]["text"]), sql=cells[4]["text"]))
            recs.append(rec)
    pages.update(more)
    judge(ctx, "C30", recs, pages)


# ---- C31 ------------------------------------------------------------------------------------------------------
def c31(ctx):
    r = ctx.rng
    pages, info, recs = {}, {}, []
    small = [0, 1, 2, 3, 7]
    cases = [(o, list(ts)) for o in (0, 1, 3, 1000) for ts in [()] + [(a,) for a in small] + [(a, b) for a in small for b in small] + [(a, b, c) for a in (1, 3) for b in (1, 2, 3) for c in (0, 2)]]
    for _ in range(ctx.pick(300, 6000)):
        n = r.choice([1, 2, 3, 5, 12])
        big = r.choice([10, 1000, 12000, 199999])
        cases.append((r.randrange(big) + r.choice([0, 1]), [r.choice([r.randrange(big), big // 2, 1]) for _ in range(n)]))
    for k, (o, ts) in enumerate(cases):
        be = S.BACKENDS[k % 3]
        tg = [(r.choice(["users", "t%d" % j, "Todos"]), r.choice([["id"], ["a", "b"], ["b", "a"], ["c%d" % j]])) for j in range(len(ts))]
        id = "e%d" % k
        pages[id], info[id] = exam_page(r, id, be, tg, orig=o, times=ts), (o, ts, tg)
        if r.random() < 0.05 and not ts:
            pages[id]["param"] = suggest_param(be, indexTargets=[], examinationResult=dict(originalTimeMillis=o, indexResults=r.choice([[], None])))
    obs = W.run(ctx, pages.values())
    for id, (orig, ts, tg) in info.items():
        o = obs[id][0]
        rec = dict(id=id, crash=crash(o), orig=orig, first=-1, rows=[], results=[dict(time=t, t=x, cols=c) for t, (x, c) in zip(ts, tg)])
        if not rec["crash"]:
            rows = exam_rows(o)
            if rows:
                rec["first"] = digits(rows[0][0]["text"])
            for row in rows[1:]:
                m = re.fullmatch(r"Table=(.*?) / Column=(.*)", row[2]["text"] if len(row) > 2 else "")
                red = re.sub(r"[^\d.-]", "", row[1]["text"] if len(row) > 1 else "")
                rec["rows"].append(dict(time=digits(row[0]["text"]), red=round(float(red) * 100) if re.fullmatch(r"-?\d+\.\d\d", red) else 10 ** 9 if orig else 0,
                                        t=m.group(1) if m else "?", cols=m.group(2).split(", ") if m else []))
            for x in rec["rows"]:
                if abs(x["red"]) >= 10 ** 9:
                    x["red"] = 99999
        recs.append(rec)
    judge(ctx, "C31", recs, pages)


# ---- C33 ------------------------------------------------------------------------------------------------------
MARKS = ["<b>x</b>", "<img src=x onerror=alert(1)>", "</div>", "</span><script>alert(1)</script>", "&amp;", "&lt;", "&#60;", "&lt;b&gt;", "a < b", "a<b", "a > 1 && b < 2", "x <", "<", "&", "&x", "&notit;", "R&D", "<!-- ", "-->", "<?php", "'", '"',
         "' onmouseover='x", "日本", "a b", "$&", "$1", "$$", "$'", "{x}", "%s", "\\n", "<a", "</a", "<1", "< a", "&#x3c;", "&copy", "__tok", "=", "`", "${x}"]


def tip_pages(r, id, kind, hostile):
    """The same page over plain words and over hostile texts."""
    words, vals = [], []

    def slots(fill):
        n = [0]

        def sl():
            n[0] += 1
            return fill(n[0])
        return sl
    def word(k):
        while len(words) < k:
            words.append("tok%dx" % (len(words) + 1))
        return words[k - 1]

    def val(k):
        while len(vals) < k:
            v = r.choice(hostile)
            while v in vals or not v.strip() or v != v.strip():
                v = r.choice(hostile)
            vals.append(v)
        return vals[k - 1]
    seed = r.randrange(10 ** 9)
    res = []
    for which, f in (("p", word), ("h", val)):
        sl = slots(f)
        if kind == "pi":
            a, b, s1, s2, t1 = sl(), sl(), sl(), sl(), sl()
            one = lambda s, t: [{a: [load(s, 0.5, 1, "k")], b: [load(t, 0.25, 0.5, "k2")]}]
            param = pi_param(one(s1, s2), one(t1, s2))
            both = [dict(do="check", card="sqls", i=1), dict(do="check", card="timeline", i=1)]
            tok = [dict(do="check", card="Heaviest Tokenized SQLs", i=1), dict(do="check", card="Heavy Tokenized SQL Timeline", i=1)]
            steps = both + [dict(do="tips", chart=0), dict(do="tips", chart=1), dict(do="button", label="Tokenized")] + tok + [dict(do="tips", chart=0), dict(do="tips", chart=1), dict(do="bar", chart=0, s=0, d=0)]
        else:
            q = " SELECT '" + sl() + "' FROM t"
            nodes = []
            for k in range(2):
                nd = dict(text="  " * k + "-> " + sl(), title="t", tableName=sl(), estimatedInitCost=0, estimatedCost=1, estimatedReturnedRows=1, actualTimeFirstRow=0.1, actualTimeAvg=0.2, actualReturnedRows=1, actualLoopCount=1, children=None)
                if kind != "mysql":
                    nd["estimatedWidth"] = 4
                nodes.append(nd)
            nodes[0]["children"] = [nodes[1]]
            tg, ops = (sl(), [sl(), sl()]), None
            res_t = dict(originalTimeMillis=9, indexResults=[dict(executionTimeMillis=3, indexTarget=target(*tg))])
            kw = {} if kind == "mysql" else {"summaryText": "Time: 1 " + sl()}
            if kind == "hasura":
                kw.update(gql="query { a(x: \"" + sl() + "\") }", gqlVariables={"v": "w"})
            param = suggest_param(kind, query=q, analyzeNodes=[nodes[0]], indexTargets=[target(*tg)], examinationResult=res_t, **kw)
            steps = [dict(do="tips", chart=0)]
        res.append(dict(id=id + which, entry="main", param=param, steps=steps))
    return res, words, vals


def c33(ctx):
    r = ctx.rng
    hostile = [t for t in texts(ctx, "MCShown", "TEXT", 3, 500, 1000) + MARKS if len(t) <= 30]
    pages, info, recs = {}, {}, []
    for k in range(ctx.pick(260, 4000)):
        kind = ("pi", "mysql", "postgres", "hasura", "pi")[k % 5]
        two, words, vals = tip_pages(r, "m%d" % k, kind, hostile)
        if kind == "pi":
            # the databases in the same order in both pages
            a = sorted(vals[:2], key=lambda x: x.encode("utf-16-be")) == vals[:2]
            if not a:
                vals[0], vals[1] = vals[1], vals[0]
                s = json.dumps(two[1]["param"])
                d = two[1]["param"]["digData"]["performanceInsights"]
                for l in ("sqlDbLoads", "tokenizedSqlDbLoads"):
                    for h in d[l]:
                        h["databases"][0]["name"], h["databases"][1]["name"] = vals[0], vals[1]
        for p in two:
            pages[p["id"]] = p
        info["m%d" % k] = (kind, words, vals)
    obs = W.run(ctx, pages.values())
    for id, (kind, words, vals) in info.items():
        P, H = obs[id + "p"], obs[id + "h"]
        if any(crash(o) for o in P):
            raise CheckError("a page of plain words crashed: " + str([crash(o) for o in P]))
        bad = next((crash(o) for o in H if crash(o)), "")
        pairs = [dict(w=CHARS(w), v=CHARS(v)) for w, v in zip(words, vals)]
        n = 0

        def rec(k, a, b):
            nonlocal n
            n += 1
            recs.append(dict(id="%s/%d" % (id, n), crash=bad, kind=k, tip=CHARS(a), plain=CHARS(b), pairs=pairs))
        if bad:
            rec("tip", "", "")
            continue
        for o, p in zip(H, P):
            a, b = o.get("ret"), p.get("ret")
            if b:
                fa, fb = [t for x in a or [] for t in x if t], [t for x in b for t in x if t]
                for k, t in enumerate(fb):
                    rec("tip", fa[k] if k < len(fa) else "", t)
        # what a reader sees
        a, b = H[-1], P[-1]
        seen = lambda o: [s["text"] for s in o["spans"]] + [c["raw"].strip() for t in o["tables"] for row in t["rows"] for c in row if not c["h"]] + [x["label"] for x in o["checks"]]
        if kind != "hasura":
            seen2 = lambda o: seen(o) + [re.sub(r"\s+", " ", l["text"]).strip() for l in o["lines"] if l["card"] in ("sql",)]
        else:
            seen2 = lambda o: seen(o) + [re.sub(r"\s+", " ", l["text"]).strip() for l in o["lines"] if l["card"] == "query"]
        ta, tb = seen2(a), seen2(b)
        q = [k for k, t in enumerate(tb) if not re.search(r"[`\"]tok\d+x", t) or kind == "hasura" and "query" in t]   # quoted names: C27
        if any("tok" in tb[k] for k in q):
            rec("text", "\n".join(ta[k] if k < len(ta) else "" for k in q), "\n".join(tb[k] for k in q))
    judge(ctx, "C33", recs, pages)


# ---- C32: from the command to the page -------------------------------------------------------------------------
def real_reports(ctx):
    """Scenarios for the real command of every kind: plans, examinations with failures, traces, loads."""
    import exam as X, plan as P, trace as T, pi as I, time
    r = ctx.rng
    scs, meta = [], {}

    def add(s, kind, **kw):
        scs.append(s)
        meta[s["id"]] = dict(kw, kind=kind)
    plans = X.model(ctx, ctx.pick(1, 2), 1)
    keys = sorted(plans, key=str)
    n = ctx.pick(120, 1200)
    for k, key in enumerate(keys if len(keys) <= n else r.sample(keys, n)):
        s, m = X.from_plan(ctx, k, key, False)
        s["id"] = "x%d" % k
        add(s, m.get("be") or s["server"]["type"])
    for k in range(ctx.pick(150, 1500)):
        be = S.BACKENDS[k % 3]
        if be == "mysql":
            lines = [P.my_line(r, d)[0] for d in P.my_rand(r)]
        else:
            lines = [t[0] for t in P.pg_texts(r, P.pg_rand(r), be)]
        q = r.choice(["SELECT name FROM users WHERE email = 'a'", "SELECT id FROM users", "SELECT u.name FROM users u JOIN todos t ON t.user_id = u.id WHERE t.title = 'x' ORDER BY u.email",
                      "SELECT 1", "SELECT name FROM users WHERE id = 1", "SELECT name FROM users\nWHERE\temail = 'a\\'b'" if be == "mysql" else "SELECT name FROM users\nWHERE\temail = 'a''b'"])
        g = "query { users(where: {name: {_eq: \"a\"}}) { name } }"
        s = S.suggest("p%d" % k, be, g if be == "hasura" else q, P.TABLES, plan=lines, examine=r.random() < 0.4, variables=r.choice([None, "{\"a\": [1, \"x\"]}"]) if be == "hasura" else None,
                      targets=r.choice([(), (), ("users:email",), ("users:email+name", "todos:title")]), sql=q)
        if s["args"].count("-i") and "--with-examine" not in s["args"]:
            s["args"].append("--with-examine")
        add(s, be, lines=lines, query=g if be == "hasura" else q)
    for k in range(ctx.pick(60, 600)):
        ts = []
        for _ in range(r.choice([0, 1, 3, 12])):
            t = T.rand_trace(r, r.choice([1, 2, 5, 9, 20]), r.choice([["a"], ["a", "b"], ["front", "users-api", "db"]]))
            if r.random() < 0.6:
                t[0]["st"], t[0]["en"] = 0, r.choice([4000, 4001, 9000])
            ts.append(t)
        ch = [T.chunk(r, t, j, T.BASE + j) for j, t in enumerate(ts)]
        add(T.scen("j%d" % k, time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime(T.BASE)), ch, thr=r.choice([None, 0, 1, 3]), env=r.choice([None, {"JAEGER_UI_URL": "http://u/base/"}])), "jaeger")
    for k in range(ctx.pick(60, 600)):
        dbs = [dict(id=d, rid="db-RID%d" % j, engine="mysql") for j, d in enumerate(r.sample(["app", "db-1", "x"], r.choice([0, 1, 2, 3])))]
        lo = I.BASE
        pts = []
        for _ in range(r.choice([0, 1, 5, 40])) if dbs else ():
            tok = r.random() < 0.5
            q = r.choice(["SELECT 1", "SELECT 2", "it's \"x\"", "UPDATE t SET x = ?", "a`b"])
            t = lo + 3600 * r.randrange(167) + 60 * r.randrange(60)
            v = r.choice([0.001, 0.25, 1, 2.5])
            pts.append(dict(rid=r.choice(dbs)["rid"], tok=tok, sql=q, tid="T-" + q, t=t, v=v))
        add(I.scen("q%d" % k, time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime(lo)), dbs, pts), "pi", dbs=dbs, pts=pts)
    return scs, meta


def c32(ctx):
    r = ctx.rng
    scs, meta = real_reports(ctx)
    res = ctx.drive(scs)
    pages = {}
    for s in scs:
        o = res[s["id"]][0]
        if o["outstate"] != "written" or not isinstance(o["report"], dict):
            continue
        m = meta[s["id"]]
        pages[s["id"]] = dict(id=s["id"], entry="mermaid" if m["kind"] == "jaeger" else "main", param=o["report"], steps=[dict(do="button", label="Tokenized")] if m["kind"] == "pi" else [])
    if len(pages) < len(scs) * 0.6:
        raise CheckError("only %d of %d runs wrote a report" % (len(pages), len(scs)))
    obs = W.run(ctx, pages.values())
    recs = []
    for id, sc in pages.items():
        m, o = meta[id], obs[id][0]
        bad = next((crash(x) for x in obs[id] if crash(x)), "")
        rec = dict(id=id, crash=bad, cards=[], want=[], texts=[])
        tx = lambda what, s, w: rec["texts"].append(dict(what=what, s=s, w=w))
        if not bad:
            rec["cards"] = o["testids"]
            rep = sc["param"]
            if m["kind"] in S.BACKENDS:
                b = S.report_body({"report": rep}, m["kind"])
                w = rec["want"]
                if m["kind"] == "hasura":
                    w.append("query")
                w.append("sql")
                if b.get("analyzeNodes") is not None:
                    w += ["explain", "explainChart"]
                if b.get("indexTargets") is not None:
                    w.append("suggest")
                if b.get("examinationResult") is not None:
                    w.append("examination")
                    n = len(b["examinationResult"].get("indexResults") or [])
                    tx("number of examined indexes", str(len(exam_rows(o))), str(n + 1))
                if b.get("indexTargets") is not None:
                    tx("number of candidates", str(len([c for c in o["checks"] if c["card"] == "suggest"])), str(len(b["indexTargets"])))
                text = "\n".join(l["text"] for l in o["lines"] if l["card"] == ("query" if m["kind"] == "hasura" else "sql"))
                if m.get("query"):
                    tx("query", text.strip()[:len(m["query"])], m["query"])
                if m.get("lines") and b.get("analyzeNodes"):
                    sp = [s["text"] for s in o["spans"] if s["card"] == "explain"]
                    got = [x for s in sp if s != "-----------" for x in s.split("\n")]
                    tx("plan", "\n".join(x.rstrip() for x in got), "\n".join(x.rstrip() for x in m["lines"]))
                    tx("number of bars", str(len(o["charts"][0]["series"][0]["data"]) if o["charts"] else -1), str(count_nodes(b["analyzeNodes"])))
            elif m["kind"] == "jaeger":
                rec["want"] = ["slowTraces", "sameServiceTraces"]
                j = rep["digData"]["jaeger"]
                for card in rec["want"]:
                    rows = sum(1 for t in o["tables"] if t["card"] == card for row in t["rows"] if len([c for c in row if not c["h"]]) >= 6)
                    tx("number of traces", str(rows), str(len(j[card] or [])))
            else:
                rec["want"] = ["sqls", "timeline"]
                for which, oo in ((False, obs[id][0]), (True, obs[id][-1])):
                    mine = [p for p in m["pts"] if p["tok"] == which]
                    name = {d["rid"]: d["id"] for d in m["dbs"]}
                    used = sorted({name[p["rid"]] for p in mine})
                    want = sorted({p["sql"] for p in mine if used and name[p["rid"]] == used[0]})
                    got = sorted(p["x"] for s in (oo["charts"][0]["series"] if oo["charts"] else []) for p in s["data"])
                    tx("statements of the first database", json.dumps(got), json.dumps(want))
        recs.append(rec)
    ctx.extra["runs_without_report"] = len(scs) - len(pages)
    judge(ctx, "C32", recs, {s["id"]: s for s in scs})


def count_nodes(ns):
    return sum(1 + count_nodes(n.get("children")) for n in ns or [])
