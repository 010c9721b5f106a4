"""C14-C18: app dig jaeger (spec: Jaeger, MCJaeger, MCDig, JJaeger)."""
import json, time, datetime
from vlib import CheckError

BASE = 1700000000  # seconds; traces happen from here on
Q = 250000         # a quarter of a millisecond in nanoseconds


def scen(id, start=None, chunks=(), svc="front", thr=None, count=None, dmin=None, faults=(), failafter=0, out="out.html", env=None, args=(), preout=None, **kw):
    a = ["app", "dig", "jaeger", "-s", svc]
    if start is not None:
        a += ["--start-from", start]
    if thr is not None:
        a += ["-t", str(thr)]
    if count is not None:
        a += ["-c", str(count)]
    if dmin is not None:
        a += ["-d", str(dmin)]
    a += ["-o", "{OUT}" if out else ""] + list(args)
    e = {"JAEGER_UI_URL": "http://ui.example", "JAEGER_GRPC_ADDRESS": "{ADDR}"}
    e.update(env or {})
    e = {k: v for k, v in e.items() if v is not None}
    s = {"id": id, "args": a, "env": e, "query": "", "out": out or "",
         "server": {"type": "jaeger", "faults": list(faults), "jaeger": {"chunks": list(chunks), "failafter": failafter}}}
    if preout is not None:
        s["preout"] = preout
    s.update(kw)
    return s


# ---- C14: the searched period -------------------------------------------------------------------------------------
def rfc3339(r, t, frac=""):
    """t unix seconds, in some zone."""
    off = r.choice([0, 0, 540, -300, 330, 345, -210, 840, -720])
    d = datetime.datetime.fromtimestamp(t, datetime.timezone(datetime.timedelta(minutes=off)))
    z = "Z" if off == 0 and r.random() < 0.7 else "%s%02d:%02d" % ("-" if off < 0 else "+", abs(off) // 60, abs(off) % 60)
    return d.strftime("%Y-%m-%dT%H:%M:%S") + frac + z


def c14(ctx):
    r = ctx.rng
    scs, meta = [], {}
    cfg = "SPECIFICATION Spec\nCONSTANTS\n MaxEnd = %d\n Step = %d\n Modes = {\"err\", \"close\", \"mid\"}\nINVARIANTS Complete Sound Emit\n" % (ctx.pick(14400, 86400), ctx.pick(900, 1800))
    out, _, _ = ctx.tlc("MCDig", cfg)
    plans = ctx.printed_json(out, "DIG")
    if not plans:
        raise CheckError("MCDig emitted nothing")
    plans = [json.loads(p) for p in sorted({json.dumps(p, sort_keys=True) for p in plans})]
    ctx.extra["model_plans"] = len(plans)
    n = ctx.pick(350, 2500)

    def add(id, start, lo, hi, fault, frac="", beyond=""):
        svc = r.choice(["front", "Front-API", "a b", "サービス", "x-1_2", "svc'\"<>"])
        thr, cnt, dmin = r.choice([None, 0, 3]), r.choice([None, 1, 500, 100000, 2 ** 31 - 1]), r.choice([None, 0, 1, 999, 1000, 1001, 61234, 3600000, 86400000, 9223372036854])
        if beyond == "-c":   # more than a request can ask for
            cnt = r.choice([2 ** 31, 2 ** 32 + 1, 2 ** 32 + 500, 5 * 10 ** 9, 2 ** 63 - 1, -2 ** 31 - 1, -2 ** 32 + 7])
        elif beyond == "-d":
            dmin = r.choice([9223372036855, 9223372036854775807, 18446744073710, 36893488147420, -9223372036855 - r.randrange(10 ** 6)])
        faults, fa = [], 0
        if fault["at"]:
            fa = 2 if fault["mode"] == "mid" else 0
            faults = [{"kind": "find", "nth": fault["at"], "mode": "close" if fault["mode"] == "close" else "err"}]
        chunks = [chunk(r, [dict(par=0, svc="front", db="", st=0, en=4000)], k, BASE) for k in range(3)] if fa else []
        if not fault["at"] and lo is not None:
            # traces here and there, many or none in a window: they do not change what is searched
            at = [lo + r.randrange(86400) for _ in range(r.choice([0, 1, 3, 10]))] + [lo + 1800 * w + 60 for w in r.sample(range(8), r.choice([0, 1, 4]))]
            chunks = [dict(chunk(r, [dict(par=0, svc="front", db="", st=0, en=4000)], k, BASE), at=t) for k, t in enumerate(at)]
        for c in chunks if fa else []:
            c["at"] = (lo if lo is not None else 0) + 60 + 1800 * (fault["at"] - 1)
        s = scen(id, start, chunks, svc, thr, cnt, dmin, faults, fa, preout=r.choice([None, "old"]))
        scs.append(s)
        meta[id] = (svc, cnt or (0 if cnt == 0 else 500), 1000 if dmin is None else dmin, lo, hi, fault, s, frac, bool(beyond))

    now = int(time.time())
    for i, p in enumerate(plans if len(plans) <= n else r.sample(plans, n)):
        frac = r.choice(["", "", ".5", ".999999999", ".000001"])
        st = now - p["len"]
        add("m%d" % i, rfc3339(r, st, frac), st, None, p["fault"], frac)
    for i in range(ctx.pick(60, 600)):
        frac = r.choice(["", ".25", ".123456"])
        st = r.choice([BASE, 0, 951782400, 1711846800, 4102444800 - 10 ** 9, BASE + r.randrange(10 ** 6), now - r.randrange(86400 * 3), now + 5000])
        f = {"at": 0, "mode": ""} if r.random() < 0.6 else {"at": r.randrange(1, 49), "mode": r.choice(["err", "close", "mid"])}
        add("r%d" % i, rfc3339(r, st, frac), st, None, f, frac)
    for i in range(ctx.pick(6, 30)):
        add("d%d" % i, None, None, None, {"at": 0, "mode": ""} if i % 2 else {"at": r.randrange(1, 49), "mode": "err"})
    for i in range(ctx.pick(16, 120)):
        st = BASE + r.randrange(10 ** 6)
        add("b%d" % i, rfc3339(r, st, ""), st, None, {"at": 0, "mode": ""}, beyond="-d" if i % 2 else "-c")
    t0 = int(time.time())
    res = ctx.drive(scs)
    t1 = int(time.time()) + 1
    recs = []
    for s in scs:
        svc, cnt, dmin, lo, hi, fault, _, frac, beyond = meta[s["id"]]
        o = res[s["id"]][0]
        base = t0 - 86400 if lo is None else lo
        fl, fh = (t0 - 86400, t1 - 86400) if lo is None else (lo, lo)
        up = 1 if frac else 0
        tl, th = min(fl + 86400, t0), min(fh + 86400 + up, t1)
        ws, failed = [], False
        for e in o["events"]:
            b = e["body"]
            ok = (b["service"] == svc and b["num"] == cnt and b["min_n"] == 0 and b["max_n"] == 0 and b["dmin_s"] * 10 ** 9 + b["dmin_n"] == dmin * 10 ** 6
                  and b["dmax_s"] == 0 and b["op"] == "" and b["nattr"] == 0)
            ws.append({"lo": b["min_s"] - base, "hi": b["max_s"] - base, "same": ok})
            failed = failed or e["outcome"] != "ok"
        recs.append({"id": s["id"], "kind": "find", "fromLo": fl - base, "fromHi": fh - base, "toLo": tl - base, "toHi": th - base, "ws": ws, "failed": failed, "beyond": beyond,
                     "exit": o["exit"], "report": o["outstate"] == "written", "panic": o["panic"]})
    ctx.extra["failed_searches"] = sum(x["failed"] for x in recs)
    ctx.samples += ["%s: %d windows, failed=%s" % (x["id"], len(x["ws"]), x["failed"]) for x in recs[:5]]
    ctx.judge("JJaeger", recs, {"Prop": '"C14"'}, lambda i: {"scenario": meta[i][6], "stderr": res[i][0]["stderr"][-500:]})


# ---- traces -----------------------------------------------------------------------------------------------------
SVCS = ["front", "api", "db", "a", "mysql (api)", "", "サ"]
DBS = ["", "", "", "mysql", "redis", "-"]


def span_id(k, seed):
    return "%016x" % ((k * 2654435761 + seed * 97 + 1) % (2 ** 63) + 1)


def chunk(r, tr, tid, at, tseed=None, at2=0, dup=0):
    """One delivered trace: spans in any order, grouped by service into any number of groups."""
    tseed = tid if tseed is None else tseed
    ids = {k: span_id(k, tseed) for k in range(1, len(tr) + 1)}
    groups = {}
    order = list(range(1, len(tr) + 1))
    r.shuffle(order)
    for k in order:
        s = tr[k - 1]
        at_ = {"http.method": "GET", "n": 5, "f": 0.5, "b": True, "l": ["x", 1], "m": {"k": "v"}, "raw": {"bytes": "zz"}, "none": None}
        attrs = {x: at_[x] for x in r.sample(sorted(at_), r.choice([0, 0, 1, 3]))}
        if s["db"]:
            attrs["db.system"] = s["db"] if s["db"] != "-" else r.choice([7, True, ""])
        elif r.random() < 0.2:
            attrs[r.choice(["db.name", "db.statement", "DB.SYSTEM", "db"])] = "mysql"
        par = "" if s["par"] == 0 and r.random() < 0.5 else "0000000000000000" if s["par"] == 0 else span_id(999999, tseed) if s["par"] < 0 else ids[s["par"]]
        sp = {"trace": "%032x" % (tid + 1), "id": ids[k], "parent": par, "name": "op-%d-%d" % (tid, k), "start": BASE * 10 ** 9 + s["st"] * Q, "end": BASE * 10 ** 9 + s["en"] * Q, "attrs": attrs}
        key = (s["svc"], r.randrange(2))
        groups.setdefault(key, [[]])
        if r.random() < 0.2:
            groups[key].append([])
        groups[key][-1].append(sp)
    gs = []
    for (svc, _), libs in sorted(groups.items(), key=lambda x: r.random()):
        g = {"service": svc, "extra": r.random() < 0.3, "libs": libs}
        if svc == "":
            g = r.choice([{"service": None, "extra": True, "libs": libs}, {"service": None, "noresource": True, "libs": libs}, {"service": "", "libs": libs}])
        gs.append(g)
    return {"at": at, "at2": at2, "groups": gs}


def rand_trace(r, n, svcs, inside=0.7, distinct=False, orphans=0.05):
    tr = []
    L = r.choice([40, 400, 40000])
    for k in range(1, n + 1):
        par = 0 if k == 1 else (-1 if r.random() < orphans else 0 if r.random() < orphans / 2 else r.randint(max(1, k - 4), k - 1) if r.random() < 0.6 else r.randint(1, k - 1))
        if par > 0 and r.random() < inside:
            p = tr[par - 1]
            a, z = sorted(r.randint(p["st"], p["en"]) for _ in range(2))
        else:
            a, z = sorted(r.randint(0, L) for _ in range(2))
        if r.random() < 0.1:
            a = z = r.choice([a, z])
        s = r.choice(svcs)
        if distinct:
            s = "s%d" % k
        elif par > 0 and r.random() < 0.5:
            s = tr[par - 1]["svc"]
        tr.append({"par": par, "svc": s, "db": r.choice(DBS), "st": a, "en": z})
    return tr


def shuffled_ids(r, tr):
    """The same trace with its spans numbered differently (a parent may come later)."""
    n = len(tr)
    p = list(range(1, n + 1))
    r.shuffle(p)
    res = [None] * n
    for k, s in enumerate(tr):
        res[p[k] - 1] = dict(s, par=p[s["par"] - 1] if s["par"] > 0 else s["par"])
    return res


def entries(l, traces, seeds):
    tids = {"%032x" % (k + 1): k for k in range(len(traces))}
    out = []
    for e in l or []:
        t = tids.get(e["traceId"], -1)
        ids = {span_id(k, seeds[t]): k for k in range(1, len(traces[t]) + 1)} if t >= 0 else {}
        ns = []

        def walk(n, up):
            k = ids.get(n["spanId"], 0)
            ns.append({"sp": k, "up": up, "svc": n["serviceName"], "st": n["startTimeMillis"] - BASE * 1000, "en": n["endTimeMillis"] - BASE * 1000,
                       "same": n["name"] == "op-%d-%d" % (t, k)})
            me = len(ns)
            for c in n["children"] or []:
                walk(c, me)
        walk(e["root"], 0)
        out.append({"tr": t + 1, "root": ns[0]["sp"], "count": e["sameServiceAccessCount"], "blame": e["timeConsumingServiceName"], "nodes": ns})
    return out


def model_traces(ctx):
    """Every trace of the model within the bounds (TLC), packed into runs."""
    out = []
    cfgs = [("{0, 1, 2, 3}", 2, '{"a", "b"}', '{"", "mysql"}'), ("{0, 2}", 3, '{"a", "b"}', '{"", "mysql"}')]
    if ctx.thorough:
        cfgs = [("{0, 1, 2, 3}", 3, '{"a"}', '{""}'), ("{0, 1, 2, 3}", 2, '{"a", "b"}', '{"", "mysql"}'), ("{0, 2}", 3, '{"a", "b", "c"}', '{"", "mysql"}'), ("{1}", 4, '{"a", "b"}', '{"", "redis"}')]
    else:
        cfgs = [("{0, 1, 2, 3}", 2, '{"a", "b"}', '{"", "mysql"}'), ("{0, 2, 3}", 3, '{"a"}', '{""}'), ("{1}", 4, '{"a", "b"}', '{"", "mysql"}')]
    for times, n, svcs, dbs in cfgs:
        o, _, _ = ctx.tlc("MCJaeger", "SPECIFICATION Spec\nCONSTANTS\n MaxSpans = %d\n Times = %s\n Svcs = %s\n Dbs = %s\nINVARIANTS Lemmas Emit\n" % (n, times, svcs, dbs))
        t = ctx.printed_json(o, "TRACE")
        if not t:
            raise CheckError("MCJaeger emitted nothing")
        t.sort(key=lambda p: json.dumps(p, sort_keys=True))
        out.append(t)
    ctx.extra["model_traces"] = sum(len(t) for t in out)
    return out


def run(ctx, prop):
    r = ctx.rng
    scs, meta = [], {}

    def add(id, traces, thr, shared=False, twice=0.0):
        seeds = [7 if shared else k for k in range(len(traces))]
        ch = []
        order = list(range(len(traces)))
        r.shuffle(order)
        for k in order:
            at = BASE + r.randrange(86400)
            at2 = BASE + r.randrange(86400) if r.random() < twice else 0
            ch.append(chunk(r, traces[k], k, at, seeds[k], at2))
        s = scen(id, time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime(BASE)), ch, thr=thr)
        scs.append(s)
        meta[id] = (traces, seeds, 5 if thr is None else thr, s)

    if prop in ("C16", "C18", "C15"):
        for gi, ts in enumerate(model_traces(ctx)):
            pick = ts if len(ts) <= ctx.pick(3000, 30000) else r.sample(ts, ctx.pick(3000, 30000))
            for k in range(0, len(pick), 100):
                add("m%d-%d" % (gi, k), [shuffled_ids(r, t) for t in pick[k:k + 100]], 0, shared=r.random() < 0.3)
    for i in range(ctx.pick(350, 3000)):
        big = prop == "C17" and i % 2 == 0
        nt = r.choice([0, 1, 5, 20, 60, 100] if not big else [99, 100, 101, 102, 130, 200])
        if prop != "C17":
            nt = min(nt, 30)
        svcs = r.choice([["a"], ["a", "b"], SVCS])
        ts = []
        for _ in range(nt):
            t = rand_trace(r, r.choice([1, 2, 3, 5, 8, 14]) if not big else r.choice([1, 2, 4]), svcs, inside=r.choice([0.2, 0.8, 1.0]),
                           distinct=prop == "C15" and r.random() < 0.5, orphans=0.05 if prop == "C15" else 0.02)
            if big and r.random() < 0.7:
                t[0]["st"], t[0]["en"] = 0, r.choice([100, 100, 101, 99, 5000, 5000, 7])
            ts.append(shuffled_ids(r, t))
        add("r%d" % i, ts, r.choice([None, 0, 1, 2, 3, 5, 100]), shared=r.random() < 0.3, twice=0.25 if prop in ("C15", "C17") else 0.05)
    res = ctx.drive(scs)
    recs = []
    ntr = 0
    for s in scs:
        traces, seeds, thr, _ = meta[s["id"]]
        o = res[s["id"]][0]
        j = ((o["report"] or {}).get("digData") or {}).get("jaeger") if isinstance(o["report"], dict) else None
        rec = {"id": s["id"], "kind": "list", "traces": traces, "thr": thr, "exit": o["exit"], "report": j is not None, "panic": o["panic"],
               "slow": entries(j["slowTraces"], traces, seeds) if j else [], "rep": entries(j["sameServiceTraces"], traces, seeds) if j else []}
        ntr += len(traces)
        recs.append(rec)
    ctx.extra["traces_delivered"] = ntr
    ctx.samples += ["%s: %d traces -> %d slow, %d repetitive" % (x["id"], len(x["traces"]), len(x["slow"]), len(x["rep"])) for x in recs[:3] + recs[-3:]]
    ctx.judge("JJaeger", recs, {"Prop": '"%s"' % prop}, lambda i: {"scenario": meta[i][3], "stderr": res[i][0]["stderr"][-500:]})


def c15(ctx):
    run(ctx, "C15")


def c16(ctx):
    run(ctx, "C16")


def c17(ctx):
    run(ctx, "C17")


def c18(ctx):
    run(ctx, "C18")
