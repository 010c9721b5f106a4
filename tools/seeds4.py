"""Planted bugs about subqueries and refusals."""

_g = {}
exec(open("/verif/tools/seeds2.py").read(), _g)
PGDEMO, MYDEMO = _g["PGDEMO"], _g["MYDEMO"]
SEEDS = [
 dict(id="c07-pg-between-upper", property="C07", pkg="database/postgres/pservice", needs="a table only used in a subquery which is the upper bound of a BETWEEN",
      breaks="the tables of such a subquery are not looked up, so their columns are lost",
      edits=[("database/postgres/pservice/ast/ast_walker.go", "				walk(node.Left, node.From, node.To)\n", "				walk(node.Left, node.From)\n")],
      demo=PGDEMO + '''
func TestSeedDemo(t *testing.T) {
	for _, q := range []string{
		"SELECT id FROM users WHERE 1 BETWEEN (SELECT MAX(tasks.user_id) FROM tasks) AND 5",
		"SELECT id FROM users WHERE 1 BETWEEN 0 AND (SELECT MAX(tasks.user_id) FROM tasks)",
	} {
		got, err := demoSuggest(t, q, [][]string{{"users", "id", "t"}, {"tasks", "id", "t"}, {"tasks", "user_id", "f"}})
		if err != nil || !strings.Contains(strings.Join(got, " "), "tasks:user_id") {
			t.Fatal("tasks.user_id is not suggested", q, got, err)
		}
	}
}
'''),
 dict(id="c25-my-aliased-database", property="C25", pkg="database/mysql/mservice/parser", needs="a table of another database which has an alias",
      breaks="FROM other.users AS u is analysed as if it named the table of the current database",
      edits=[("database/mysql/mservice/parser/collect_table_names.go", '		if src.Schema.O != "" {\n', '		if src.Schema.O != "" && tSrc.AsName.O == "" {\n'),
             ("database/mysql/mservice/parser/collect_stmt_scopes.go", '			if src.Schema.O != "" {\n', '			if src.Schema.O != "" && n.AsName.O == "" {\n')],
      demo='''package parser

import (
	"testing"

	p "github.com/pingcap/tidb/parser"
	_ "github.com/pingcap/tidb/parser/test_driver"
)

func TestSeedDemo(t *testing.T) {
	for _, q := range []string{"SELECT name FROM other.users WHERE name = 1", "SELECT u.name FROM other.users AS u WHERE u.name = 1"} {
		n, err := p.New().ParseOneStmt(q, "", "")
		if err != nil {
			t.Fatal(err)
		}
		if got, errs := CollectTableNames(n); len(errs) == 0 {
			if _, errs = CollectStmtScopes(n); len(errs) == 0 {
				t.Fatal("accepted", q, got)
			}
		}
	}
}
'''),
]
