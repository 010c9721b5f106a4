PGSCHEMA = '''
	rows := sqlmock.NewRows([]string{"table_name", "column_name", "is_pk"})
	for _, c := range cols {
		rows.AddRow(c[0], c[1], c[2] == "t")
	}
	mock.ExpectQuery("is_pk").WillReturnRows(rows)
	idx := sqlmock.NewRows([]string{"index_name", "table_name", "column_names"})
	mock.ExpectQuery("PG_GET_INDEXDEF").WillReturnRows(idx)
'''
PGDEMO = '''package pservice_test

import (
	"strings"
	"testing"

	"github.com/DATA-DOG/go-sqlmock"
	"github.com/mrasu/GravityR/database/postgres/pservice"
	"github.com/mrasu/GravityR/infra/postgres"
	"github.com/jmoiron/sqlx"
)

func demoSuggest(t *testing.T, query string, cols [][]string) (res []string, err error) {
	conn, mock, err := sqlmock.New()
	if err != nil {
		t.Fatal(err)
	}
	db := postgres.NewDB(sqlx.NewDb(conn, "postgres"))
''' + PGSCHEMA + '''
		its, e := pservice.NewIndexSuggester(db, "public").Suggest(query)
		err = e
		for _, it := range its {
			var cs []string
			for _, c := range it.Columns {
				cs = append(cs, c.SafeName())
			}
			res = append(res, it.TableName+":"+strings.Join(cs, "+"))
		}
	return
}
'''
MYDEMO = '''package mservice_test

import (
	"strings"
	"testing"

	"github.com/DATA-DOG/go-sqlmock"
	"github.com/mrasu/GravityR/database/mysql/mservice"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/thelper"
)

func demoSuggest(t *testing.T, query string, cols [][]string) (res []string, err error) {
	thelper.MockMysqlDB(t, func(db *mysql.DB, mock sqlmock.Sqlmock) {
		rows := sqlmock.NewRows([]string{"COLUMN_NAME", "COLUMN_KEY", "TABLE_NAME"})
		for _, c := range cols {
			rows.AddRow(c[1], c[2], c[0])
		}
		mock.ExpectQuery("information_schema.columns").WillReturnRows(rows)
		mock.ExpectQuery("information_schema.STATISTICS").WillReturnRows(sqlmock.NewRows([]string{"TABLE_NAME", "INDEX_NAME", "COLUMN_NAME"}))
		its, e := mservice.NewIndexSuggester(db, "app").Suggest(query)
		err = e
		for _, it := range its {
			var cs []string
			for _, c := range it.Columns {
				cs = append(cs, c.SafeName())
			}
			res = append(res, it.TableName+":"+strings.Join(cs, "+"))
		}
	})
	return
}
'''
DIGPI = '''package dig

import (
	"context"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/aws/aws-sdk-go-v2/service/pi"
	piTypes "github.com/aws/aws-sdk-go-v2/service/pi/types"
	"github.com/mrasu/GravityR/infra/aws"
	"github.com/mrasu/GravityR/lib"
	"github.com/mrasu/GravityR/thelper"
)

type demoPi struct {
	covered map[string]map[int64]bool
}

func (d *demoPi) GetResourceMetrics(_ context.Context, in *pi.GetResourceMetricsInput, _ ...func(*pi.Options)) (*pi.GetResourceMetricsOutput, error) {
	g := *in.MetricQueries[0].GroupBy.Group
	if d.covered[g] == nil {
		d.covered[g] = map[int64]bool{}
	}
	for t := in.StartTime.Unix(); t < in.EndTime.Unix(); t += 300 {
		d.covered[g][t] = true
	}
	return &pi.GetResourceMetricsOutput{MetricList: []piTypes.MetricKeyDataPoints{}}, nil
}
'''
SEEDS = [
 dict(id="c04-given-index-implies-exam", property="C04", pkg="cmd/db/suggest/hasura", needs="-i given for Hasura without --with-examine",
      breaks="indexes given with -i are created and dropped, and the query is run, although no examination is asked for",
      edits=[("cmd/db/suggest/hasura/postgres.go", "	if pr.runsExamination {\n", "	if pr.runsExamination || len(examinationIdxTargets) > 0 {\n")],
      demo='''package hasura

import (
	"net/url"
	"os"
	"testing"

	"github.com/jarcoal/httpmock"
	"github.com/mrasu/GravityR/infra/hasura"
	"github.com/mrasu/GravityR/thelper"
)

func TestSeedDemo(t *testing.T) {
	pr := postgresRunner{query: "query Q { users { email } }", jsonVariables: "{}", indexTargets: []string{"users:name"}}
	u, _ := url.Parse("https://example.com")
	thelper.InjectClientDist()
	m := hasuraMock{}
	m.mockAll(func() {
		thelper.CreateTemp(t, "tmp.html", func(f *os.File) {
			if err := pr.suggest(f.Name(), hasura.NewClient(&hasura.Config{Url: u})); err != nil {
				t.Fatal(err)
			}
			if n := httpmock.GetCallCountInfo()["POST https://example.com/v1/graphql"]; n != 0 {
				t.Fatal("the query was executed without an examination asked for", n)
			}
		})
	})
}
'''),
 dict(id="c06-null-variables-lost", property="C06", pkg="database/hasura/hservice", needs="a GraphQL variable whose value is null, and an examination",
      breaks="variables given as null are left out of the measured query, which makes a default value take their place",
      edits=[("database/hasura/hservice/index_examiner.go", "		variables: v,\n", "		variables: lo.OmitBy(v, func(_ string, a interface{}) bool { return a == nil }),\n"),
             ("database/hasura/hservice/index_examiner.go", '	"github.com/mrasu/GravityR/lib"\n', '	"github.com/mrasu/GravityR/lib"\n	"github.com/samber/lo"\n')],
      demo='''package hservice_test

import (
	"io"
	"net/http"
	"net/url"
	"strings"
	"testing"

	"github.com/jarcoal/httpmock"
	"github.com/mrasu/GravityR/database/hasura/hservice"
	"github.com/mrasu/GravityR/infra/hasura"
)

func TestSeedDemo(t *testing.T) {
	httpmock.Activate()
	defer httpmock.DeactivateAndReset()
	got := ""
	httpmock.RegisterResponder("POST", "https://example.com/v1/graphql", func(req *http.Request) (*http.Response, error) {
		b, _ := io.ReadAll(req.Body)
		got = string(b)
		return httpmock.NewStringResponse(200, `{"data":{}}`), nil
	})
	u, _ := url.Parse("https://example.com")
	ie := hservice.NewIndexExaminer(hasura.NewClient(&hasura.Config{Url: u}), "query Q { users { id } }", map[string]interface{}{"a": nil, "b": 1})
	if _, err := ie.Execute(); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(got, `"a":null`) {
		t.Fatal("the null variable was not sent: ", got)
	}
}
'''),
 dict(id="c07-pg-nullif", property="C07", pkg="database/postgres/pservice", needs="a column used only as the second operand of NULLIF",
      breaks="the second operand of NULLIF is not analysed",
      edits=[("database/postgres/pservice/parser/collect_stmt_scopes.go", "		res = append(res, sc.collectExprReferences(e.Expr2, defaultType)...)\n", "")],
      demo=PGDEMO + '''
func TestSeedDemo(t *testing.T) {
	got, err := demoSuggest(t, "SELECT id FROM users WHERE NULLIF(1, age) = 2", [][]string{{"users", "id", "t"}, {"users", "age", "f"}})
	if err != nil || !strings.Contains(strings.Join(got, " "), "age") {
		t.Fatal("age is not suggested", got, err)
	}
}
'''),
 dict(id="c07-my-right-join-on", property="C07", pkg="database/mysql/mservice", needs="a RIGHT JOIN of MySQL whose ON condition alone uses a column",
      breaks="the ON condition of a RIGHT JOIN is ignored",
      edits=[("database/mysql/mservice/parser/collect_stmt_scopes.go", "	if j.On != nil {\n", "	if j.On != nil && j.Tp != ast.RightJoin {\n")],
      demo=MYDEMO + '''
func TestSeedDemo(t *testing.T) {
	got, err := demoSuggest(t, "SELECT 1 FROM users RIGHT JOIN tasks ON tasks.user_id = users.id", [][]string{{"users", "id", "PRI"}, {"tasks", "id", "PRI"}, {"tasks", "user_id", ""}})
	if err != nil || !strings.Contains(strings.Join(got, " "), "tasks:user_id") {
		t.Fatal("tasks.user_id is not suggested", got, err)
	}
}
'''),
 dict(id="c08-last-pk-only", property="C08", pkg="database/postgres/pservice", needs="a table with a primary key of several columns",
      breaks="only the last column of a primary key is known, so indexes over a part of the primary key are suggested",
      edits=[("database/dservice/dparser/table_schema.go", "			t.PrimaryKeys = append(t.PrimaryKeys, colName)\n", "			t.PrimaryKeys = []string{colName}\n")],
      demo=PGDEMO + '''
func TestSeedDemo(t *testing.T) {
	got, err := demoSuggest(t, "SELECT 1 FROM users WHERE a = 1 AND b = 2", [][]string{{"users", "a", "t"}, {"users", "b", "t"}})
	if err != nil || len(got) != 0 {
		t.Fatal("indexes over columns of the primary key are suggested", got, err)
	}
}
'''),
 dict(id="c09-any-tables-index", property="C09", pkg="database/dservice", needs="an index with the same columns on another table of the query, and an unrelated index on the candidate's own table",
      breaks="a candidate is withheld because another table has an index over columns with the same names",
      edits=[("database/dservice/existing_index_remover.go", "		if idxes, ok := idxGroups[it.TableName]; ok {\n			for _, id := range idxes {", "		if _, ok := idxGroups[it.TableName]; ok {\n			for _, id := range idxInfos {")],
      demo='''package dservice

import (
	"testing"

	"github.com/mrasu/GravityR/database/dmodel"
)

type demoGetter struct{}

func (demoGetter) GetIndexes(string, []string) ([]*dmodel.IndexTarget, error) {
	return []*dmodel.IndexTarget{dmodel.NewIndexTarget("a", []string{"x"}), dmodel.NewIndexTarget("b", []string{"y"})}, nil
}

func TestSeedDemo(t *testing.T) {
	its := []*dmodel.IndexTarget{dmodel.NewIndexTarget("a", []string{"y"}), dmodel.NewIndexTarget("b", []string{"x"})}
	res, err := NewExistingIndexRemover(demoGetter{}, "db", its).Remove()
	if err != nil || len(res) != 2 {
		t.Fatal("candidates were removed", res, err)
	}
}
'''),
 dict(id="c09-my-primary-merged", property="C09", pkg="infra/mysql", needs="two tables of the query, each having just its primary key, next to each other in the catalog",
      breaks="indexes with the same name of adjacent tables are taken for one index, so existing indexes are missed",
      edits=[("infra/mysql/index_info.go", "		if lastTName == flatInfo.TableName && lastIName == flatInfo.IndexName {", "		if lastIName == flatInfo.IndexName {"),
             ("infra/mysql/index_info.go", '	lastTName := ""\n', ""), ("infra/mysql/index_info.go", "		lastTName = flatInfo.TableName\n", "")],
      demo='''package mysql_test

import (
	"testing"

	"github.com/DATA-DOG/go-sqlmock"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/thelper"
)

func TestSeedDemo(t *testing.T) {
	thelper.MockMysqlDB(t, func(db *mysql.DB, mock sqlmock.Sqlmock) {
		rows := sqlmock.NewRows([]string{"TABLE_NAME", "INDEX_NAME", "COLUMN_NAME"})
		rows.AddRow("tasks", "idx_name", "name")
		rows.AddRow("users", "idx_name", "name")
		mock.ExpectQuery("STATISTICS").WillReturnRows(rows)
		infos, err := db.GetIndexes("app", []string{"tasks", "users"})
		if err != nil || len(infos) != 2 || len(infos[0].Columns) != 1 {
			t.Fatal("indexes of two tables were mixed", infos, err)
		}
	})
}
'''),
 dict(id="c10-sort-ignores-case", property="C10", pkg="database/postgres/pservice", needs="two columns whose names differ in case only",
      breaks="candidates over columns whose names differ only in case come in a random order",
      edits=[("database/dservice/dparser/index_target_table.go", "			if iIndexes[idx].Name == jIndexes[idx].Name {\n				continue\n			}\n			return iIndexes[idx].Name < jIndexes[idx].Name", "			iName, jName := strings.ToLower(iIndexes[idx].Name), strings.ToLower(jIndexes[idx].Name)\n			if iName == jName {\n				continue\n			}\n			return iName < jName"),
             ("database/dservice/dparser/index_target_table.go", '	"sort"\n', '	"sort"\n	"strings"\n')],
      demo=PGDEMO + '''
func TestSeedDemo(t *testing.T) {
	for i := 0; i < 60; i++ {
		got, err := demoSuggest(t, `SELECT 1 FROM users WHERE "Age" = 1 AND age = 2`, [][]string{{"users", "id", "t"}, {"users", "Age", "f"}, {"users", "age", "f"}})
		if want := "users:Age users:age users:Age+age users:age+Age"; err != nil || strings.Join(got, " ") != want {
			t.Fatal("unexpected order", got, err)
		}
	}
}
'''),
 dict(id="c11-my-one-level-up", property="C11", pkg="database/mysql/mservice", needs="a plan in which a line follows one nested at least six levels deeper",
      breaks="a line following a much deeper one is put below the wrong parent",
      edits=[("database/mysql/mservice/explainer.go", "			for nodeStack.Size()-1 > nest {\n				nodeStack.Pop()\n			}\n", "			for i := 0; i < 4 && nodeStack.Size()-1 > nest; i++ {\n				nodeStack.Pop()\n			}\n")],
      demo='''package mservice_test

import (
	"testing"

	"github.com/DATA-DOG/go-sqlmock"
	"github.com/mrasu/GravityR/database/mysql/mservice"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/thelper"
)

func TestSeedDemo(t *testing.T) {
	thelper.MockMysqlDB(t, func(db *mysql.DB, mock sqlmock.Sqlmock) {
		rows := sqlmock.NewRows([]string{"EXPLAIN"}).AddRow(`-> A
    -> B
        -> C
            -> D
                -> E
                    -> G
                        -> H
                            -> I
    -> F
`)
		mock.ExpectQuery("EXPLAIN").WillReturnRows(rows)
		tree, err := mservice.NewExplainer(db).ExplainWithAnalyze("SELECT")
		if err != nil {
			t.Fatal(err)
		}
		if a := tree.Root.Children[0]; len(a.Children) != 2 {
			t.Fatal("F is not below A", len(a.Children))
		}
	})
}
'''),
 dict(id="c12-pg-summary-planning-only", property="C12", pkg="database/postgres/pservice", needs="a plan whose summary begins with a section other than Planning or Execution, like Query Identifier or a trigger",
      breaks="lines of the summary are shown as nodes of the plan and are lost from the summary",
      edits=[("database/postgres/pservice/explain_analyze_tree_builder.go", "`^\\w[\\w ]+:`", "`^(Planning|Execution|JIT|Functions|Options|Timing|Settings)[\\w ]*:`")],
      demo='''package pservice_test

import (
	"strings"
	"testing"

	"github.com/mrasu/GravityR/database/postgres/pservice"
)

func TestSeedDemo(t *testing.T) {
	tree, err := pservice.NewExplainAnalyzeTreeBuilder().Build([]string{
		"Seq Scan on users  (cost=0.00..1400.36 rows=65536 width=9) (actual time=0.007..4.327 rows=65536 loops=1)",
		"Query Identifier: 12345",
		"Execution Time: 6.023 ms",
	})
	if err != nil || len(tree.Root.Children) != 1 || !strings.HasPrefix(tree.SummaryText, "Query Identifier:") {
		t.Fatal("the summary is a part of the plan", tree, err)
	}
}
'''),
 dict(id="c13-zero-rows-unknown", property="C13", pkg="database/postgres/pmodel", needs="a node which returned no row",
      breaks="a node which returned zero rows is shown as if the number of rows were unknown",
      edits=[("database/postgres/pmodel/explain_analyze_tree_node.go", "ActualReturnedRows:    n.AnalyzeResultNode.ActualReturnedRows,", "ActualReturnedRows:    null.NewInt(n.AnalyzeResultNode.ActualReturnedRows.Int64, n.AnalyzeResultNode.ActualReturnedRows.ValueOrZero() > 0),"),
             ("database/postgres/pmodel/explain_analyze_tree_node.go", "import (\n", 'import (\n	"gopkg.in/guregu/null.v4"\n')],
      demo='''package pmodel_test

import (
	"testing"

	"github.com/mrasu/GravityR/database/postgres/pmodel"
)

func TestSeedDemo(t *testing.T) {
	_, n, err := pmodel.ParseExplainAnalyzeResultLineNode([]string{"Seq Scan on users  (cost=0.00..1.36 rows=1 width=9) (actual time=0.007..4.327 rows=0 loops=1)"})
	if err != nil {
		t.Fatal(err)
	}
	vm := (&pmodel.ExplainAnalyzeTreeNode{AnalyzeResultNode: n}).ToViewModel()
	if !vm.ActualReturnedRows.Valid || vm.ActualReturnedRows.Int64 != 0 {
		t.Fatal("zero rows are not shown", vm.ActualReturnedRows)
	}
}
'''),
 dict(id="c14-last-range-short", property="C14", pkg="lib", needs="a period whose last part is shorter than a half interval",
      breaks="the last part of the period is not searched when it is short",
      edits=[("lib/time.go", "for t := start; t.Before(end); t = t.Add(interval) {", "for t := start; t.Add(interval / 2).Before(end) || t.Equal(start); t = t.Add(interval) {")],
      demo='''package lib_test

import (
	"testing"
	"time"

	"github.com/mrasu/GravityR/lib"
)

func TestSeedDemo(t *testing.T) {
	s := time.Unix(1700000000, 0)
	for m := 1; m < 200; m += 7 {
		e := s.Add(time.Duration(m) * time.Minute)
		rs := lib.GenerateTimeRanges(s, e, 30*time.Minute)
		if rs[len(rs)-1].Add(30 * time.Minute).Before(e) {
			t.Fatal("the end is not covered", m)
		}
	}
}
'''),
 dict(id="c15-one-child-unsorted", property="C15", pkg="otel/jaeger", needs="a span with several children below a span which is an only child",
      breaks="children of a span which is an only child are shown in a random order instead of the order they started",
      edits=[("otel/omodel/span.go", "func (s *Span) SortChildren() {\n", "func (s *Span) SortChildren() {\n	if len(s.Children) < 2 {\n		// nothing to sort\n		return\n	}\n"),
             ("otel/omodel/span.go", "	for _, c := range s.Children {\n		c.SortChildren()\n	}\n", "	lo.ForEach(s.Children, func(c *Span, _ int) { c.SortChildren() })\n")],
      demo='''package jaeger_test

import (
	"testing"

	trace "github.com/jaegertracing/jaeger/proto-gen/otel/trace/v1"
	"github.com/mrasu/GravityR/otel/jaeger"
)

func TestSeedDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		id := func(n byte) []byte { return []byte{n, 0, 0, 0, 0, 0, 0, 1} }
		spans := []*trace.Span{{SpanId: id(1)}, {SpanId: id(2), ParentSpanId: id(1)}}
		for n := byte(3); n < 8; n++ {
			spans = append(spans, &trace.Span{SpanId: id(n), ParentSpanId: id(2), StartTimeUnixNano: uint64(n)})
		}
		trees := jaeger.ToTraceTrees([]*trace.ResourceSpans{{InstrumentationLibrarySpans: []*trace.InstrumentationLibrarySpans{{Spans: spans}}}})
		cs := trees[0].Root.Children[0].Children
		for k := 1; k < len(cs); k++ {
			if cs[k-1].StartTimeUnixNano > cs[k].StartTimeUnixNano {
				t.Fatal("children are not in order")
			}
		}
	}
}
'''),
 dict(id="c16-unnamed-service", property="C16", pkg="otel/omodel", needs="a span without a service name called by a named service",
      breaks="the entry of a service which has no name is dropped, and everything below it is shown as called by another service",
      edits=[("otel/omodel/trace_compacter.go", "	if span.Parent.ServiceName != span.ServiceName {\n", "	if span.ServiceName != \"\" && span.Parent.ServiceName != span.ServiceName {\n")],
      demo='''package omodel_test

import (
	"testing"

	"github.com/mrasu/GravityR/otel/omodel"
)

func TestSeedDemo(t *testing.T) {
	root := &omodel.Span{Name: "r", SpanId: []byte{1}, ServiceName: "a"}
	root.Children = []*omodel.Span{{Name: "x", SpanId: []byte{2}, Parent: root}}
	if c := omodel.NewTraceTree(root).Compact(); len(c.Root.Children) != 1 {
		t.Fatal("the span without a service name was dropped")
	}
}
'''),
 dict(id="c17-duration-overflow", property="C17", pkg="otel/jaeger", needs="a trace longer than about two seconds, and more traces than are shown",
      breaks="durations over two seconds overflow, so long traces are not among the slowest",
      edits=[("otel/jaeger/trace_picker.go", "		d1 := a1.Root.EndTimeUnixNano - a1.Root.StartTimeUnixNano\n		d2 := a2.Root.EndTimeUnixNano - a2.Root.StartTimeUnixNano\n", "		d1 := int32(a1.Root.EndTimeUnixNano - a1.Root.StartTimeUnixNano)\n		d2 := int32(a2.Root.EndTimeUnixNano - a2.Root.StartTimeUnixNano)\n")],
      demo='''package jaeger_test

import (
	"testing"

	"github.com/mrasu/GravityR/otel/jaeger"
	"github.com/mrasu/GravityR/otel/omodel"
)

func TestSeedDemo(t *testing.T) {
	var ts []*omodel.TraceTree
	for _, d := range []uint64{300, 3000, 500, 700} {
		ts = append(ts, omodel.NewTraceTree(&omodel.Span{StartTimeUnixNano: 1e9, EndTimeUnixNano: 1e9 + d*1e6}))
	}
	got := jaeger.NewTracePicker(ts).PickSlowTraces(2)
	if len(got) != 2 || got[0] != ts[1] || got[1] != ts[3] {
		t.Fatal("not the slowest traces")
	}
}
'''),
 dict(id="c18-longest-span-only", property="C18", pkg="otel/omodel", needs="a service whose spans each are shorter than another service's, but longer together",
      breaks="the service with the longest single span is blamed instead of the one which consumed the most time",
      edits=[("otel/omodel/compact_info_collect_visitor.go", "	v.serviceConsumedTime[span.ServiceName] += span.CalcConsumedTime()\n", "	if t := span.CalcConsumedTime(); t > v.serviceConsumedTime[span.ServiceName] {\n		v.serviceConsumedTime[span.ServiceName] = t\n	}\n")],
      demo='''package omodel_test

import (
	"testing"

	"github.com/mrasu/GravityR/otel/omodel"
)

func TestSeedDemo(t *testing.T) {
	root := &omodel.Span{Name: "r", SpanId: []byte{1}, ServiceName: "a", EndTimeUnixNano: 100}
	for i := byte(0); i < 2; i++ {
		root.Children = append(root.Children, &omodel.Span{SpanId: []byte{2 + i}, ServiceName: "b", Parent: root, StartTimeUnixNano: uint64(i) * 30, EndTimeUnixNano: uint64(i)*30 + 30})
	}
	if got := omodel.NewTraceTree(root).ToCompactViewModel().TimeConsumingServiceName; got != "b" {
		t.Fatal("wrong service is blamed: ", got)
	}
}
'''),
 dict(id="c19-last-half-day", property="C19", pkg="cmd/db/dig", needs="load measured in the last half of the seventh day",
      breaks="the last half day is not requested",
      edits=[("cmd/db/dig/performance_insights.go", "		for i := 0; i < 14; i++ {\n", "		for current.Add(12 * time.Hour).Before(end) {\n")],
      demo=DIGPI + '''
func TestSeedDemo(t *testing.T) {
	start := time.Date(2001, 2, 3, 4, 0, 0, 0, time.UTC)
	d := &demoPi{covered: map[string]map[int64]bool{}}
	thelper.InjectClientDist()
	thelper.CreateTemp(t, "tmp.html", func(f *os.File) {
		pr := piRunner{start: start.Format(time.RFC3339)}
		if err := pr.dig(f.Name(), (&piMock{}).buildRdsClient(), aws.NewPerformanceInsightsWithCli(d)); err != nil {
			t.Fatal(err)
		}
	})
	_, _, _ = strings.Contains, lib.Ptr[int], piTypes.ServiceTypeRds
	for g, c := range d.covered {
		if len(c) != 7*24*12 {
			t.Fatal("not all the seven days were requested", g, len(c))
		}
	}
}
'''),
 dict(id="c20-merge-by-token", property="C20", pkg="infra/aws", needs="two statements with the same tokenized id in the same hour",
      breaks="the load of statements sharing a tokenized id is added to the first one of them",
      edits=[("infra/aws/pi_sql_load_avg.go", "				if loadOfSql.Sql == avg.SQL {", "				if loadOfSql.TokenizedId == avg.TokenizedId {")],
      demo='''package aws_test

import (
	"testing"
	"time"

	"github.com/mrasu/GravityR/infra/aws"
)

func TestSeedDemo(t *testing.T) {
	s := time.Unix(1659074400, 0).UTC()
	v := []*aws.PiTimeValue{{Time: s, Value: 1}}
	vms := aws.ConvertPiSQLLoadAvgsToVms(s, s, []*aws.PiSQLLoadAvg{{DbName: "d", SQL: "SELECT 1", TokenizedId: "T", Values: v}, {DbName: "d", SQL: "SELECT 2", TokenizedId: "T", Values: v}})
	if n := len(vms[0].Databases[0].Sqls); n != 2 {
		t.Fatal("loads of two statements were merged", n)
	}
}
'''),
 dict(id="c21-unescaped-json", property="C21", pkg="html", needs="a query containing </script>",
      breaks="text with </script> ends the script element of the report",
      edits=[("html/html_builder.go", '		"gr":     bo.createGrMap(),\n', '		"gr":     template.JS(gr.String()),\n'),
             ("html/html_builder.go", '	m := map[string]interface{}{\n', '	var gr strings.Builder\n	enc := json.NewEncoder(&gr)\n	enc.SetEscapeHTML(false)\n	if err := enc.Encode(bo.createGrMap()); err != nil {\n		return errors.Wrap(err, "failed to encode data")\n	}\n	m := map[string]interface{}{\n'),
             ("html/html_builder.go", '	"github.com/mrasu/GravityR/injection"\n', '	"encoding/json"\n	"github.com/mrasu/GravityR/injection"\n'),
             ("html/html_builder.go", '	"os"\n', '	"os"\n	"strings"\n')],
      demo='''package html_test

import (
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/mrasu/GravityR/html"
	"github.com/mrasu/GravityR/thelper"
)

func TestSeedDemo(t *testing.T) {
	thelper.InjectClientDist()
	f := filepath.Join(t.TempDir(), "a.html")
	bo := html.NewSuggestPostgresDataBuildOption("SELECT '</script><b>'", nil, "", nil, nil, nil)
	if err := html.CreateHtml(html.TypeMain, f, bo); err != nil {
		t.Fatal(err)
	}
	b, _ := os.ReadFile(f)
	if strings.Contains(string(b), "</script><b>") {
		t.Fatal("the script element ends in the query")
	}
}
'''),
 dict(id="c22-half-period", property="C22", pkg="cmd/db/dig", needs="a request to Performance Insights failing after another one succeeded",
      breaks="when reading the tokenized load fails, a report of incomplete data is written and the command succeeds",
      edits=[("cmd/db/dig/performance_insights.go", "			tAvgs, err := piCli.GetHalfDayTokenizedSqlMetrics(db, current)\n			if err != nil {\n				return err\n			}\n", "			tAvgs, err := piCli.GetHalfDayTokenizedSqlMetrics(db, current)\n			if err != nil {\n				log.Warn().Err(err).Msg(\"failed to get tokenized data\")\n				break\n			}\n")],
      demo='''package dig

import (
	"context"
	"errors"
	"os"
	"testing"
	"time"

	"github.com/aws/aws-sdk-go-v2/service/pi"
	"github.com/mrasu/GravityR/infra/aws"
	"github.com/mrasu/GravityR/thelper"
)

type demoPi struct{}

func (demoPi) GetResourceMetrics(_ context.Context, in *pi.GetResourceMetricsInput, _ ...func(*pi.Options)) (*pi.GetResourceMetricsOutput, error) {
	if *in.MetricQueries[0].GroupBy.Group == "db.sql_tokenized" {
		return nil, errors.New("throttled")
	}
	return &pi.GetResourceMetricsOutput{}, nil
}

func TestSeedDemo(t *testing.T) {
	thelper.InjectClientDist()
	thelper.CreateTemp(t, "tmp.html", func(f *os.File) {
		pr := piRunner{start: time.Date(2001, 2, 3, 4, 0, 0, 0, time.UTC).Format(time.RFC3339)}
		if err := pr.dig(f.Name(), (&piMock{}).buildRdsClient(), aws.NewPerformanceInsightsWithCli(demoPi{})); err == nil {
			t.Fatal("succeeded although requests failed")
		}
	})
}
'''),
 dict(id="c23-env-expanded", property="C23", pkg="lib", needs="a setting holding a dollar sign followed by a word",
      breaks="a dollar sign in a setting is expanded, so another value is used",
      edits=[("lib/env.go", "	return v, nil\n", "	return os.ExpandEnv(v), nil\n")],
      demo='''package lib_test

import (
	"testing"

	"github.com/mrasu/GravityR/lib"
)

func TestSeedDemo(t *testing.T) {
	t.Setenv("SEED_DEMO", "pa$word")
	if v, err := lib.GetEnv("SEED_DEMO"); err != nil || v != "pa$word" {
		t.Fatal("the value was changed", v, err)
	}
}
'''),
 dict(id="c24-indexes-of-public", property="C24", pkg="database/postgres/pservice", needs="DB_SEARCH_PATH naming a schema other than public",
      breaks="existing indexes are looked up in the schema public whichever schema is configured",
      edits=[("database/postgres/pservice/index_suggester.go", "	its, err = is.removeExistingIndexTargets(is.db, is.schema, its)\n", '	its, err = is.removeExistingIndexTargets(is.db, "public", its)\n')],
      demo='''package pservice_test

import (
	"testing"

	"github.com/DATA-DOG/go-sqlmock"
	"github.com/mrasu/GravityR/database/postgres/pservice"
	"github.com/mrasu/GravityR/infra/postgres"
	"github.com/mrasu/GravityR/thelper"
)

func TestSeedDemo(t *testing.T) {
	thelper.MockPostgresDB(t, func(db *postgres.DB, mock sqlmock.Sqlmock) {
		mock.ExpectQuery("is_pk").WithArgs("app", "users").WillReturnRows(sqlmock.NewRows([]string{"table_name", "column_name", "is_pk"}).AddRow("users", "name", false))
		mock.ExpectQuery("PG_GET_INDEXDEF").WithArgs("app", "users").WillReturnRows(sqlmock.NewRows([]string{"index_name", "table_name", "column_names"}))
		if _, err := pservice.NewIndexSuggester(db, "app").Suggest("SELECT name FROM users"); err != nil {
			t.Fatal(err)
		}
	})
}
'''),
 dict(id="c25-two-windows-only", property="C25", pkg="database/postgres/pservice", needs="a SELECT with exactly one named window",
      breaks="a WINDOW clause with one window is accepted and its columns are ignored",
      edits=[("database/postgres/pservice/parser/collect_stmt_scopes.go", "	if stmt.Window != nil {\n", "	if len(stmt.Window) > 1 {\n")],
      demo=PGDEMO + '''
func TestSeedDemo(t *testing.T) {
	got, err := demoSuggest(t, "SELECT rank() OVER w FROM users WINDOW w AS (PARTITION BY age)", [][]string{{"users", "id", "t"}, {"users", "age", "f"}})
	if err == nil {
		t.Fatal("WINDOW was accepted", got)
	}
}
'''),
]
