"""Planted bugs of the client's properties. kind "page": demo.py runs the client's sources with the harness copied beside it."""
C = "client/src/"
PI = C + "pages/dig/performance_insights/"
HELP = '''import json, os, subprocess, sys, re

HERE = os.path.dirname(os.path.abspath(__file__))


def show(param, steps=(), entry="main"):
    """What the page shows after loading and after each step."""
    sc = dict(id="x", entry=entry, param=param, steps=list(steps))
    p = subprocess.run(["node", os.path.join(HERE, "client", "run.mjs"), os.getcwd()], input=json.dumps(sc) + "\\n", stdout=subprocess.PIPE, text=True,
                       env=dict(os.environ, TZ="UTC", LC_ALL="C.UTF-8", LANG="en_US.UTF-8"))
    if p.returncode != 0:
        sys.exit(3)
    obs = json.loads(p.stdout)["obs"]
    for o in obs:
        if o.get("crash"):
            sys.exit("the page crashes: " + o["crash"])
    return obs


def want(got, exp):
    if got != exp:
        sys.exit("got %r\\nwant %r" % (got, exp))


def suggest(kind, **kw):
    d = dict(query="SELECT 1", analyzeNodes=None, indexTargets=None, examinationCommandOptions=[], examinationResult=None, summaryText="", gql="query { a }", gqlVariables={})
    d.update(kw)
    return {"suggestData": {kind: {"postgres": d} if kind == "hasura" else d}, "digData": None}


def target(t, *cols):
    return dict(tableName=t, columns=[dict(name=c) for c in cols])


def hours(hs):
    return [dict(timestamp=1700000000000 // 3600000 * 3600000 + 3600000 * k,
                 databases=[dict(name=d, sqls=[dict(sql=s, loadMax=m, loadSum=m, tokenizedId=t) for s, m, t in l]) for d, l in h.items()]) for k, h in enumerate(hs)]


def span(svc, *kids):
    return dict(name="n", spanId="s", startTimeMillis=0, endTimeMillis=1000, serviceName=svc, children=list(kids))


'''
SEEDS = [
 dict(id="c26-stale-choice", property="C26", page=True,
  needs="a report of Performance Insights: click a tokenized statement, choose one of its plain statements, then click another tokenized statement (a sequence of three clicks in the ranking)",
  breaks="the command offered below the ranking stays the one of the plain statement chosen before, although another statement is now chosen and none of its plain ones",
  edits=[(PI + "HeaviestTokenizedSqlRanking.svelte", "    selectedProp = prop;\n    selectedRawLoadOfSql = undefined;", "    if (selectedProp?.dbName !== prop.dbName) {\n      selectedRawLoadOfSql = undefined;\n    }\n    selectedProp = prop;")],
  demo='''raw = hours([{"app": [("SELECT 1", 0.5, "A"), ("SELECT 2", 0.4, "B")]}])
tok = hours([{"app": [("SELECT ?", 0.5, "A"), ("SELECT ??", 0.4, "B")]}])
o = show({"suggestData": None, "digData": {"performanceInsights": {"sqlDbLoads": raw, "tokenizedSqlDbLoads": tok}, "jaeger": None}},
         [dict(do="button", label="Tokenized"), dict(do="bar", chart=0, s=0, d=0), dict(do="radio", i=0), dict(do="bar", chart=0, s=0, d=1)])
if "SELECT 1" not in o[3]["codes"][0]["text"]:
    sys.exit("the chosen statement is not offered")
if "SELECT 1" in o[4]["codes"][0]["text"]:
    sys.exit("the command is one of another statement: " + o[4]["codes"][0]["text"])
'''),
 dict(id="c26-trim-columns", property="C26", page=True,
  needs="a column whose name begins or ends with a blank",
  breaks="the offered -i names another column (the name without its blanks), so the examination cannot create the index",
  edits=[(C + "models/IndexTarget.ts", 'return this.columns.map((v) => v.name).join("+");', 'return this.columns.map((v) => v.name.trim()).join("+");')],
  demo='''o = show(suggest("mysql", indexTargets=[target("users", "e mail ", "id")], examinationCommandOptions=[]))[0]
words = __import__("shlex").split("\\n".join(c["text"] for c in o["codes"]))
if "users:e mail +id" not in words:
    sys.exit("offered: %r" % words)
'''),
 dict(id="c27-examined-plain", property="C27", page=True,
  needs="the examination table of a Hasura report and its button to copy the request",
  breaks="the copied text of an examined index is a bare SQL statement instead of the request that makes Hasura run it",
  edits=[(C + "models/HasuraSuggestData.ts", "      result.indexTarget = plainToInstance(\n        HasuraIndexTarget,\n        result.indexTarget\n      );", "      result.indexTarget = plainToInstance(\n        PostgresIndexTarget,\n        result.indexTarget\n      );"),
         (C + "models/HasuraSuggestData.ts", 'import { HasuraIndexTarget } from "@/models/HasuraIndexTarget";', 'import { HasuraIndexTarget } from "@/models/HasuraIndexTarget";\nimport { PostgresIndexTarget } from "@/models/PostgresIndexTarget";')],
  demo='''res = dict(originalTimeMillis=100, indexResults=[dict(executionTimeMillis=10, indexTarget=target("users", "email"))])
o = show(suggest("hasura", indexTargets=[target("users", "email")], examinationResult=res), [dict(do="button", label="Copy as Curl", i=0)])
if "run_sql" not in o[-1]["clip"][0]:
    sys.exit("copied: " + o[-1]["clip"][0])
'''),
 dict(id="c28-last-child-starts", property="C28", page=True,
  needs="a plan node whose earlier child ends later than its last one (for example a hash join over a slow scan and a fast one)",
  breaks="the node's bar begins before one of its children is finished",
  edits=[(C + "components/ExplainTree/ExplainTree.ts", "startTime = Math.max(...childrenFinished);", "startTime = childrenFinished[childrenFinished.length - 1] ?? 0;")],
  demo='''def node(text, avg, kids=None):
    return dict(text=text, title=text, tableName="t", estimatedInitCost=0, estimatedCost=1, estimatedReturnedRows=1, estimatedWidth=4,
                actualTimeFirstRow=0.1, actualTimeAvg=avg, actualReturnedRows=1, actualLoopCount=1, children=kids)
o = show(suggest("postgres", analyzeNodes=[node("join", 10, [node("slow", 8), node("fast", 2)])]))[0]
want([p["y"] for p in o["charts"][0]["series"][0]["data"]], [[8, 10], [0, 8], [0, 2]])
'''),
 dict(id="c28-loops-just-over", property="C28", page=True,
  needs="a MySQL plan node with an average time of 0 and between 1001 and 10000 loops",
  breaks="the node's bar has no length, though so many loops take time",
  edits=[(C + "models/explain_data/MysqlAnalyzeData.ts", "if (this.actualLoopCount > 1000 && this.actualTimeAvg === 0) {", "if (this.actualLoopCount > 10000 && this.actualTimeAvg === 0) {")],
  demo='''n = dict(text="n", title="n", tableName="t", estimatedInitCost=0, estimatedCost=1, estimatedReturnedRows=1,
         actualTimeFirstRow=0, actualTimeAvg=0, actualReturnedRows=1, actualLoopCount=4000, children=None)
o = show(suggest("mysql", analyzeNodes=[n]))[0]
want(round(o["charts"][0]["series"][0]["data"][0]["y"][1], 6), 0.4)
'''),
 dict(id="c29-run-swallows-nested", property="C29", page=True,
  needs="a span with a leaf call followed by a call of the same service that has calls of its own",
  breaks="the second call and everything below it is missing from the diagram (a leaf call is drawn in its place)",
  edits=[(C + "models/OtelTraceSpan.ts", "      if (otherChild.isLast === false) break;\n", "")],
  demo='''t = dict(traceId="t1", sameServiceAccessCount=2, timeConsumingServiceName="a", root=span("front", span("a"), span("a", span("db"))))
o = show({"suggestData": None, "digData": {"performanceInsights": None, "jaeger": dict(uiPath="http://u", slowThresholdMilli=1, sameServiceThreshold=1, slowTraces=[t], sameServiceTraces=[])}},
         [dict(do="button", label="Show diagram", i=0)], entry="mermaid")
if "a->>db" not in o[-1]["diagrams"][-1]:
    sys.exit("the diagram lacks a call: " + o[-1]["diagrams"][-1])
'''),
 dict(id="c30-merge-across-databases", property="C30", page=True,
  needs="the same statement running heavily in two databases, both of them ticked",
  breaks="the timeline mixes the loads of the two databases into one series",
  edits=[(PI + "util/chart/LoadPropChartSereies.ts", "        if (!knownSeries[dbLoad.name]) {\n          knownSeries[dbLoad.name] = {};\n        }\n        const dbSeries = knownSeries[dbLoad.name];", '        if (!knownSeries[""]) {\n          knownSeries[""] = {};\n        }\n        const dbSeries = knownSeries[""];')],
  demo='''h = hours([{"a": [("SELECT 1", 0.5, "k")], "b": [("SELECT 1", 0.25, "k")]}, {"b": [("SELECT 1", 0.75, "k")]}])
o = show({"suggestData": None, "digData": {"performanceInsights": {"sqlDbLoads": h, "tokenizedSqlDbLoads": h}, "jaeger": None}}, [dict(do="check", i=k) for k in (1, 3)])
best = [sorted([p["y"] for p in s["data"]] for s in c["series"]) for x in o for c in x["charts"]]
if [[0, 75], [50, 0]] in best or sorted([[50, 0], [25, 75]]) in best:
    sys.exit(0)
sys.exit("no timeline of both databases: %r" % best)
'''),
 dict(id="c31-truncated", property="C31", page=True,
  needs="an examination whose reduction has a third decimal of 5 or more (250 of 300 ms)",
  breaks="the reduction is cut off instead of rounded",
  edits=[(C + "models/ExaminationIndexResult.ts", "    return (\n      (1 - this.executionTimeMillis / originalTimeMillis) *\n      100\n    ).toLocaleString(", "    const hundredths = Math.trunc(\n      (1 - this.executionTimeMillis / originalTimeMillis) * 10000\n    );\n    return (hundredths / 100).toLocaleString(")],
  demo='''res = dict(originalTimeMillis=300, indexResults=[dict(executionTimeMillis=250, indexTarget=target("users", "email")), dict(executionTimeMillis=100, indexTarget=target("users", "id"))])
o = show(suggest("mysql", indexTargets=[target("users", "email")], examinationResult=res))[0]
cells = [c["text"] for t in o["tables"] for row in t["rows"] for c in row]
if "16.67%" not in cells or "66.67%" not in cells:
    sys.exit("shown: %r" % cells)
'''),
 dict(id="c33-formatted-plan", property="C33", page=True,
  needs="a plan whose filter compares with < followed by a name (a condition like (a <b AND c> 1))",
  breaks="the part of the plan's line that looks like a tag is taken for markup and disappears",
  edits=[(C + "components/ExplainText.svelte", "{`${text}`}</span>", "{@html text}</span>")],
  demo='''n = dict(text="Filter: (a <b and c> 1)", title="n", tableName="t", estimatedInitCost=0, estimatedCost=1, estimatedReturnedRows=1, estimatedWidth=4, children=None,
         actualTimeFirstRow=0, actualTimeAvg=1, actualReturnedRows=1, actualLoopCount=1)
o = show(suggest("postgres", analyzeNodes=[n]))[0]
if not any("Filter: (a <b and c> 1)" in s["text"] for s in o["lines"] if s["card"] == "explain"):
    sys.exit("shown: %r" % o["lines"])
'''),
 dict(id="c32-empty-hour", property="C32", pkg="infra/aws",
  needs="a week with an hour in which the database had no load at all",
  breaks="the report's data has null in place of an empty list for such an hour, and the page cannot be opened",
  edits=[("html/viewmodel/vm_time_db_load.go", "		Databases: []*VmDbLoad{},\n", "")],
  demo='''package aws_test

import (
	"encoding/json"
	"strings"
	"testing"
	"time"

	"github.com/mrasu/GravityR/html/viewmodel"
)

func TestSeedDemo(t *testing.T) {
	b, err := json.Marshal(viewmodel.NewVmTimeDbLoad(time.Unix(1700000000, 0)))
	if err != nil {
		t.Fatal(err)
	}
	// the page maps over this list
	if !strings.Contains(string(b), `"databases":[]`) {
		t.Fatalf("an hour without load: %s", b)
	}
}
'''),
]
for s in SEEDS:
    if s.get("page"):
        s["demo"] = HELP + s["demo"]
