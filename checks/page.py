"""C21: any text in the report (spec: Page, MCPage, JPage)."""
import json, os, re, subprocess
from vlib import CheckError
import scen as S
import pi as P
import trace as T

MORE = ["{{.gr}}", "&lt;", "&amp;#60;", "&", "\u2028", "\u2029", "\r\n", "\n", "\t", "\x00", "\x01", "\x1f", "\x7f", "\x85", "\ufeff", "\U0001F600", "é", "日本", "`", "${x}", "*/", "//", "/*", "]]>", "<style>",
        "</style>", "</head>", "<title>", "</title>", "\\u003c", "\\x3c", "%3C", "'", "''", "<img src=x onerror=alert(1)>", "<svg/onload=1>", "=", "+", "e\u0301", "a", " ", "window.grParam", ";", "0", "-1", "null", "NaN",
        "</SCRIPT\t", "</script\n", "<!-", "--!>", "<!-->", "<?", "<![CDATA[", "<a", "\\", "\\\\", '"', "\u202e", "\ud7ff", "\ue000", "\ufffd"]


def concrete(r, v):
    return "".join(r.choice(["script", "SCRIPT", "Script", "scRipt"]) if c == "S" else c for c in v)


CTRL = re.compile("[\x00-\x1f\x7f-\x9f\u2028\u2029\ufeff\ufffe\uffff]")


class Slots:
    """Texts of one scenario; plain ones are distinct words."""
    def __init__(self, fill):
        self.fill, self.pairs = fill, []

    def __call__(self, f=lambda x: x, enc=lambda x: x, nonempty=True):
        tok = "tok%dx" % (len(self.pairs) + 1)
        h = f(self.fill(len(self.pairs))) if self.fill else tok
        if nonempty and not h:
            h = "h"
        if self.fill and any(h == x[1] for x in self.pairs):
            h += "u%d" % len(self.pairs)
        self.pairs.append((tok, h))
        return enc(h)


nonul = lambda x: x.replace("\x00", "")
line = lambda x: CTRL.sub("", x)                       # one line of a plan
ident = lambda x: line(x).strip()[:60].strip()
fname = lambda x: nonul(x).replace("/", "").strip(".")[:30] + "n"
clean = lambda x: CTRL.sub("", x)                     # XML cannot carry control characters
mystr = lambda x: "'" + x.replace("\\", "\\\\").replace("'", "''") + "'"
pgstr = lambda x: "'" + x.replace("'", "''") + "'"
bt = lambda x: "`" + x.replace("`", "``") + "`"
dq = lambda x: '"' + x.replace('"', '""') + '"'


def make(id, cmd, sl):
    """A scenario of the command; sl gives the texts."""
    if cmd in ("mysql", "postgres", "hasura"):
        idn, lit = (bt, mystr) if cmd == "mysql" else (dq, pgstr)
        col = sl(lambda x: ident(x).lower() if cmd == "mysql" else ident(x))
        l1 = sl(nonul)
        q = "SELECT COUNT(*) FROM users WHERE %s = %s" % (idn(col), lit(l1))
        out = sl(fname)
        pl = sl(line)
        if cmd == "mysql":
            plan = ["-> Filter: (users.email = '" + pl + "')  (cost=1.25 rows=10)", "    -> Table scan on users  (cost=1.25 rows=10)"]
        else:
            su = sl(line)
            plan = ["Seq Scan on users  (cost=0.00..1400.36 rows=65536 width=9)", "  Filter: (email = '" + pl + "'::text)"] + (["Planning Time: 0.1 ms " + su] if cmd == "postgres" else [])
        var = gql = None
        if cmd == "hasura":
            gql = "query { users(where: {a: {_eq: \"%s\"}}) { name } }" % sl(nonul)
            var = json.dumps({sl(lambda x: x if x != "__proto__" else "p"): sl(lambda x: x, nonempty=False), "list": [sl(lambda x: x), {"k": 1}]}, ensure_ascii=False)
        s = S.suggest(id, cmd, gql or q, [S.table("users", ["id", col])], sql=q, plan=plan, out=out + ".html", variables=var)
        return s
    if cmd == "jaeger":
        a, b, sys = sl(), sl(), sl()
        tr = [dict(par=0, svc=a, db="", st=0, en=8000), dict(par=1, svc=b, db="", st=400, en=2400), dict(par=2, svc=b, db=sys, st=800, en=1200)]
        import random
        ch = T.chunk(random.Random(5), tr, 1, T.BASE)
        names = [sl(lambda x: x) for _ in tr]
        k = 0
        for g in ch["groups"]:
            for lib in g["libs"]:
                for sp in sorted(lib, key=lambda x: x["id"]):
                    sp["name"] = names[int(sp["name"].split("-")[-1]) - 1]
        return T.scen(id, "2023-11-14T22:13:00Z", [dict(ch, at=1700000000)], svc="front", env={"JAEGER_UI_URL": sl(nonul)})
    dbs = [{"id": sl(clean), "rid": "db-RID1", "engine": "mysql"}]
    pts = []
    for tok in (False, True):
        pts.append({"rid": "db-RID1", "tok": tok, "sql": sl(lambda x: x), "tid": sl(lambda x: x), "t": 1699956000, "v": 1.5})
    return P.scen(id, "2023-11-14T10:00:00Z", dbs, pts)


def strings(v, at=""):
    """All texts of a JSON value with their places, members' names included; numbers and the like as they are."""
    if isinstance(v, dict):
        res = []
        for k in sorted(v):
            res += [(at + ".key", k)] + strings(v[k], at + ".val")
        return res
    if isinstance(v, list):
        return [x for i, e in enumerate(v) for x in strings(e, at + "[%d]" % i)]
    return [(at, v if isinstance(v, str) else "(%s)" % json.dumps(v))]


def subst(v, f):
    """v with f applied to all texts, members' names included."""
    if isinstance(v, dict):
        return {f(k): subst(v[k], f) for k in v}
    if isinstance(v, list):
        return [subst(e, f) for e in v]
    return f(v) if isinstance(v, str) else v


def replace(s, pairs, enc):
    """The plain report's text with the words replaced."""
    def one(m):
        return enc(pairs[int(m.group(1)) - 1][1])
    return re.sub(r"tok(\d+)x", one, s)


NODE = r"""
const fs=require('fs'),vm=require('vm');
const lines=fs.readFileSync(process.argv[2],'utf8').split('\n').filter(x=>x);
const out=lines.map(l=>{const s=JSON.parse(l);try{const c={window:{}};vm.runInNewContext(s,c,{timeout:5000});const ks=Object.keys(c),ws=Object.keys(c.window);
 return JSON.stringify(ks.length==1&&ws.length==1?{v:c.window.grParam}:{bad:'other globals'})}catch(e){return JSON.stringify({bad:String(e)})}});
fs.writeFileSync(process.argv[3],out.join('\n')+'\n');
"""


def evaluate(ctx, scripts):
    """Evaluates data scripts as a browser does (node)."""
    a, b, j = (os.path.join(ctx.work, n) for n in ("scripts.txt", "values.txt", "ev.js"))
    open(j, "w").write(NODE)
    with open(a, "w") as f:
        for s in scripts:
            f.write(json.dumps(s) + "\n")
    p = subprocess.run(["node", j, a, b], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise CheckError("node: " + p.stderr[-500:])
    return [json.loads(x) for x in open(b).read().split("\n") if x]


def c21(ctx):
    r = ctx.rng
    cfg = "SPECIFICATION Spec\nCONSTANTS\n MaxLen = %d\n MaxAtoms = %d\nINVARIANTS Safe Back Emit\n" % (ctx.pick(4, 5), ctx.pick(3, 4))
    out, _, _ = ctx.tlc("MCPage", cfg)
    plans = ["".join(x) for x in sorted({tuple(p["v"]) for p in ctx.printed_json(out, "PAGE")})]
    if not plans:
        raise CheckError("MCPage emitted nothing")
    ctx.extra["model_texts"] = len(plans)
    r.shuffle(plans)
    nxt = [0]

    def hostile(i):
        if r.random() < 0.6:
            nxt[0] += 1
            return concrete(r, plans[nxt[0] % len(plans)])
        return "".join(r.choice(MORE) if r.random() < 0.7 else concrete(r, r.choice(plans)) for _ in range(r.choice([1, 2, 3, 6])))
    cmds = ["mysql", "postgres", "hasura", "jaeger", "pi"]
    scs, meta = [], {}
    for c in cmds:
        sl = Slots(None)
        s = make("plain-" + c, c, sl)
        s["rawhtml"] = True
        scs.append(s)
    for i in range(ctx.pick(500, 6000)):
        c = cmds[i % 5]
        sl = Slots(hostile)
        s = make("h%d" % i, c, sl)
        s["rawhtml"] = True
        scs.append(s)
        meta[s["id"]] = (c, sl.pairs, s)
    res = ctx.drive(scs)
    ids = [s["id"] for s in scs]
    vals = dict(zip(ids, evaluate(ctx, [(res[i][0]["html"] or {}).get("data", "") for i in ids])))
    plain = {}
    for c in cmds:
        o = res["plain-" + c][0]
        if o["outstate"] != "written":
            raise_plain(ctx, c, o)
            return
        plain[c] = (o["html"]["structure"], vals["plain-" + c].get("v"))
    recs = []
    for i in ids:
        if i not in meta:
            continue
        c, pairs, s = meta[i]
        o = res[i][0]
        h = o["html"] or {}
        want = strings(subst(plain[c][1], lambda t: expected(c, t, pairs, s)))
        v = vals[i]
        got = [list(x) for x in strings(v["v"])] if "v" in v else [["", v.get("bad", "")]]
        recs.append({"id": i, "panic": o["panic"], "exit": o["exit"], "report": o["outstate"] == "written", "st": h.get("structure") or [], "plain": plain[c][0], "whole": bool(h.get("complete")),
                     "scripts": h.get("scripts", 0), "data": bool(h.get("data_ok") and h.get("tail_ok") and "v" in v), "client": h.get("client") == ("mermaid" if c == "jaeger" else "main"),
                     "want": [x[0] + " " + x[1] for x in want], "got": [x[0] + " " + x[1] for x in got]})
    ctx.samples += ["%s: %s" % (meta[x["id"]][0], json.dumps([p[1] for p in meta[x["id"]][1]])[:250]) for x in recs[:: max(1, len(recs) // 5)]]

    def desc(i):
        x = [y for y in recs if y["id"] == i][0]
        return {"cmd": meta[i][0], "texts": meta[i][1], "args": meta[i][2]["args"], "stderr": res[i][0]["stderr"][-400:],
                "diff": [(a, b) for a, b in zip(x["want"], x["got"]) if a != b][:4], "len": (len(x["want"]), len(x["got"]))}
    ctx.judge("JPage", recs, {"Prop": '"C21"'}, desc)


def raise_plain(ctx, c, o):
    ctx.violation("plain-%s: the command failed with plain texts" % c, {"stderr": o["stderr"][-500:]})


def expected(c, t, pairs, s):
    """The text expected where the plain report has t. Inside the query and the variables the words stand in an encoded form."""
    if t.startswith("SELECT COUNT(*)"):
        return s["server"]["sql"] if c == "hasura" else s["query"]
    if c == "hasura" and t.startswith("{") and "list" in t:
        return s["args"][s["args"].index("--json-variables") + 1]
    return replace(t, pairs, lambda x: x)
