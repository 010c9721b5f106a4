From 9d620b5fc1726cca38501e5fb7fb5878b1333588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:53 +0000
Subject: [PATCH 01/56] fix: treat errors in a GraphQL response from Hasura as
 a failed query

---
 infra/hasura/client.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/infra/hasura/client.go b/infra/hasura/client.go
index 8ddf7b7..d07bcae 100644
--- a/infra/hasura/client.go
+++ b/infra/hasura/client.go
@@ -37,10 +37,22 @@ func (c *Client) QueryWithoutResult(query string, variables map[string]interface
 		"query":     query,
 		"variables": variables,
 	}
-	_, err := c.post(graphqlPath, body)
+	res, err := c.post(graphqlPath, body)
 	if err != nil {
 		return errors.Wrap(err, "query for GraphQL failed")
 	}
+
+	// GraphQL reports failure of a query by "errors" with status 200
+	var gres struct {
+		Errors []json.RawMessage `json:"errors"`
+	}
+	err = json.Unmarshal(res, &gres)
+	if err != nil {
+		return errors.Wrap(err, "failed to decode response from Hasura")
+	}
+	if len(gres.Errors) > 0 {
+		return errors.Errorf("query for GraphQL failed: %s", string(res))
+	}
 	return nil
 }
 
-- 
2.43.0


From 7771b7dbbc96881eb3925392df3ab68e24166fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:53 +0000
Subject: [PATCH 02/56] fix: refuse an index option having line breaks instead
 of using a part of it

---
 database/dmodel/index_target.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/dmodel/index_target.go b/database/dmodel/index_target.go
index 7bee1eb..328ccc4 100644
--- a/database/dmodel/index_target.go
+++ b/database/dmodel/index_target.go
@@ -15,7 +15,7 @@ type IndexTarget struct {
 	Columns   []*IndexColumn
 }
 
-var indexTargetReg = regexp.MustCompile(`(.+?):((.+?(\+)?)+)`)
+var indexTargetReg = regexp.MustCompile(`\A(.+?):((.+?(\+)?)+)\z`)
 var wordOnlyReg = regexp.MustCompile(`\A\w+\z`)
 
 const indexTargetColumnSeparator = "+"
-- 
2.43.0


From 8d057edd3c80836d71f5f2de3433c1ab506767d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:26 +0000
Subject: [PATCH 03/56] fix: do not execute a query by EXPLAIN ANALYZE before
 knowing that it is one supported SELECT

---
 cmd/db/suggest/mysql.go             |  6 ++++++
 cmd/db/suggest/postgres.go          |  6 ++++++
 database/mysql/mservice/parse.go    | 19 +++++++++++++++++++
 database/postgres/pservice/parse.go | 19 +++++++++++++++++--
 4 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/cmd/db/suggest/mysql.go b/cmd/db/suggest/mysql.go
index a128264..ae664df 100644
--- a/cmd/db/suggest/mysql.go
+++ b/cmd/db/suggest/mysql.go
@@ -64,6 +64,12 @@ func (mr *mysqlRunner) suggest(outputPath string, db *mysql.DB, dbName string) e
 		return err
 	}
 
+	// EXPLAIN ANALYZE executes the query
+	err = mservice.EnsureSupportedQuery(mr.query)
+	if err != nil {
+		return err
+	}
+
 	aTree, err := mservice.NewExplainer(db).ExplainWithAnalyze(mr.query)
 	if err != nil {
 		return err
diff --git a/cmd/db/suggest/postgres.go b/cmd/db/suggest/postgres.go
index 54a7b78..a144542 100644
--- a/cmd/db/suggest/postgres.go
+++ b/cmd/db/suggest/postgres.go
@@ -64,6 +64,12 @@ func (pr *postgresRunner) suggest(outputPath string, db *postgres.DB, schema str
 		return err
 	}
 
+	// EXPLAIN ANALYZE executes the query
+	err = pservice.EnsureSupportedQuery(pr.query, schema)
+	if err != nil {
+		return err
+	}
+
 	aTree, err := pservice.NewExplainer(db).ExplainWithAnalyze(pr.query)
 	if err != nil {
 		return err
diff --git a/database/mysql/mservice/parse.go b/database/mysql/mservice/parse.go
index 82b8d4a..b65fc4f 100644
--- a/database/mysql/mservice/parse.go
+++ b/database/mysql/mservice/parse.go
@@ -1,8 +1,10 @@
 package mservice
 
 import (
+	mparser "github.com/mrasu/GravityR/database/mysql/mservice/parser"
 	"github.com/pingcap/tidb/parser"
 	"github.com/pingcap/tidb/parser/ast"
+	"github.com/pkg/errors"
 )
 
 func Parse(p *parser.Parser, query string) (ast.StmtNode, error) {
@@ -11,5 +13,22 @@ func Parse(p *parser.Parser, query string) (ast.StmtNode, error) {
 		return nil, err
 	}
 
+	if len(stmtNodes) != 1 {
+		return nil, errors.New("not supporting query not having exactly one statement")
+	}
 	return stmtNodes[0], nil
 }
+
+// EnsureSupportedQuery checks, without accessing database, that query is one SELECT statement we can handle
+func EnsureSupportedQuery(query string) error {
+	rootNode, err := Parse(parser.New(), query)
+	if err != nil {
+		return err
+	}
+
+	_, errs := mparser.CollectStmtScopes(rootNode)
+	if len(errs) > 0 {
+		return errs[0]
+	}
+	return nil
+}
diff --git a/database/postgres/pservice/parse.go b/database/postgres/pservice/parse.go
index 5018253..f377b17 100644
--- a/database/postgres/pservice/parse.go
+++ b/database/postgres/pservice/parse.go
@@ -2,6 +2,7 @@ package pservice
 
 import (
 	"github.com/auxten/postgresql-parser/pkg/sql/parser"
+	pparser "github.com/mrasu/GravityR/database/postgres/pservice/parser"
 	"github.com/pkg/errors"
 )
 
@@ -11,8 +12,22 @@ func Parse(query string) (*parser.Statement, error) {
 		return nil, errors.Wrap(err, "failed to parse sql")
 	}
 
-	if len(stmts) > 1 {
-		return nil, errors.New("not supporting query having multiple statements")
+	if len(stmts) != 1 {
+		return nil, errors.New("not supporting query not having exactly one statement")
 	}
 	return &stmts[0], nil
 }
+
+// EnsureSupportedQuery checks, without accessing database, that query is one SELECT statement we can handle
+func EnsureSupportedQuery(query, schema string) error {
+	stmt, err := Parse(query)
+	if err != nil {
+		return err
+	}
+
+	_, errs := pparser.CollectStmtScopes(stmt, schema)
+	if len(errs) > 0 {
+		return errs[0]
+	}
+	return nil
+}
-- 
2.43.0


From 9a2cb67141576b7c9c149d26b3ab3c0b89305f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:26 +0000
Subject: [PATCH 04/56] fix: succeed without suggestion when no index candidate
 exists

---
 database/dservice/existing_index_remover.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/database/dservice/existing_index_remover.go b/database/dservice/existing_index_remover.go
index 42c7da6..09abde6 100644
--- a/database/dservice/existing_index_remover.go
+++ b/database/dservice/existing_index_remover.go
@@ -25,6 +25,9 @@ func NewExistingIndexRemover(idxGetter IndexGetter, dbName string, its []*dmodel
 
 func (r *ExistingIndexRemover) Remove() ([]*dmodel.IndexTarget, error) {
 	idxTargets := lo.Uniq(r.idxTargets)
+	if len(idxTargets) == 0 {
+		return idxTargets, nil
+	}
 
 	tNames := lo.Map(idxTargets, func(it *dmodel.IndexTarget, _ int) string { return it.TableName })
 	tNames = lo.Uniq(tNames)
-- 
2.43.0


From 66f822d17bed286ada7b671c8f9cdcfc27ad6705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:30 +0000
Subject: [PATCH 05/56] fix: do not forget tables before the last one at comma
 separated FROM of PostgreSQL

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 409ecb2..50c8fac 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -92,7 +92,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 			sc.errors = append(sc.errors, err)
 		}
 
-		scope.Tables = tables
+		scope.Tables = append(scope.Tables, tables...)
 		foundFields = append(foundFields, fields...)
 	}
 	if stmt.Where != nil {
-- 
2.43.0


From 951e9ab297bb068ff478a02bf9e59f5653576ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:37 +0000
Subject: [PATCH 06/56] fix: refuse UNION, WITH and parenthesized FROM of
 PostgreSQL by error instead of crashing

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 50c8fac..fd8d3c6 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -68,6 +68,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 
 	stmt, ok := selectNode.Select.(*tree.SelectClause)
 	if !ok {
+		sc.errors = append(sc.errors, lib.NewUnsupportedError("not supporting UNION, EXCEPT, VALUES, nested parentheses etc."))
 		return false
 	}
 
@@ -150,7 +151,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 		}
 	}
 	if selectNode.With != nil {
-		sc.lastError = lib.NewInvalidAstError("WITH is not expected")
+		sc.errors = append(sc.errors, lib.NewInvalidAstError("WITH is not expected"))
 	}
 
 	for _, f := range foundFields {
@@ -167,7 +168,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 }
 
 func (sc *scopeCollector) Leave(node interface{}) bool {
-	if sc.scopeStack.Top().node == node {
+	if top := sc.scopeStack.Top(); top != nil && top.node == node {
 		sc.scopeStack.Pop()
 	}
 
@@ -510,7 +511,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 		case *tree.AliasedTableExpr:
 			sc.lastError = lib.NewInvalidAstError("nested AS is unexpected")
 		case *tree.ParenTableExpr:
-			return sc.collectTables(tt)
+			return sc.collectTables(tt.Expr)
 		case *tree.JoinTableExpr:
 			tables, fields = sc.collectJoinReferences(tt)
 		case *tree.RowsFromExpr:
@@ -528,7 +529,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 			sc.lastError = lib.NewUnsupportedError("numeric table reference is not supported")
 		}
 	case *tree.ParenTableExpr:
-		return sc.collectTables(t)
+		return sc.collectTables(t.Expr)
 	case *tree.JoinTableExpr:
 		tables, fields = sc.collectJoinReferences(t)
 	case *tree.RowsFromExpr:
-- 
2.43.0


From 6db05b074c63fa22f29145f2d492e766104909f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:27 +0000
Subject: [PATCH 07/56] fix: do not resolve a column to a table inside a
 subquery of an expression

---
 database/dservice/dparser/build_table_fields.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 2be983a..6eee953 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -59,12 +59,13 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 	visibleCols := info.getVisibleColumns()
 	for _, s := range scope.FieldScopes {
 		childInfo := info.createChild(s, visibleCols)
-		cols, newFieldColumns, err := tfb.calculateReferences(childInfo)
+		_, newFieldColumns, err := tfb.calculateReferences(childInfo)
 		if err != nil {
 			return nil, nil, err
 		}
 
-		info.addSubqueryInfo(s.Name, s.Name, cols, newFieldColumns)
+		// columns of subquery inside an expression are not visible from the outside of the subquery
+		info.addReferencingFields(newFieldColumns)
 	}
 
 	var outputCols []*outputCol
-- 
2.43.0


From d04c9fae930d49a5031505aa0a69e7bf499b8f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:34 +0000
Subject: [PATCH 08/56] fix: do not treat a column in conditions of a derived
 table as its output

---
 database/dservice/dparser/build_table_fields.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 6eee953..884375f 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -71,6 +71,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 	var outputCols []*outputCol
 	for _, f := range scope.Fields {
 		var allColInfos []*columnInfo
+		isCondition := false
 		for _, c := range f.Columns {
 			colInfos, err := info.getColumnReferenceColumnInfos(c)
 			if err != nil {
@@ -89,10 +90,14 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 			if c.Type == FieldStar {
 				info.starTables.Add(c.Table)
 			}
+			if c.Type == FieldCondition {
+				isCondition = true
+			}
 		}
 
+		// fields in conditions (WHERE, ON etc.) are not output
 		n := f.Name()
-		if n != "" {
+		if n != "" && !isCondition {
 			outputCols = append(outputCols, &outputCol{name: n, referencingColumns: allColInfos})
 		}
 	}
-- 
2.43.0


From da47f331f7518c9a18af4de68f1c3d5872329610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:41 +0000
Subject: [PATCH 09/56] fix: do not resolve a column in LATERAL to a table on
 the right of it

---
 database/dservice/dparser/build_table_fields.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 884375f..fe67b96 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -44,7 +44,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 
 		t := tableMap[s.Name]
 		if t.IsLateral {
-			subScopeVisibleCols = lo.Assign(info.originalExternalCols, info.getVisibleColumns())
+			subScopeVisibleCols = lo.Assign(info.originalExternalCols, info.getVisibleColumnsBefore(t))
 		}
 
 		childInfo := info.createChild(s, subScopeVisibleCols)
@@ -241,10 +241,18 @@ func (si *scopeInfo) listStarReferencingCols(foundCols []*outputCol) ([]*outputC
 }
 
 func (si *scopeInfo) getVisibleColumns() tableOutputCols {
+	return si.getVisibleColumnsBefore(nil)
+}
+
+// getVisibleColumnsBefore returns columns of tables placed before the given table in FROM
+func (si *scopeInfo) getVisibleColumnsBefore(table *Table) tableOutputCols {
 	res := tableOutputCols{}
-	for asName, name := range si.refTables.asToName {
-		if cols, ok := si.refTables.internalCols[name]; ok {
-			res[asName] = cols
+	for _, t := range si.scope.Tables {
+		if t == table {
+			break
+		}
+		if cols, ok := si.refTables.internalCols[t.Name]; ok {
+			res[t.AsOrName()] = cols
 		}
 	}
 
-- 
2.43.0


From 1ea4b0ef70269e901f49d0c08daa41480cc659ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:49 +0000
Subject: [PATCH 10/56] fix: resolve an alias of an outer query even if the
 subquery reads a table with the same name

---
 .../dservice/dparser/build_table_fields.go    | 25 ++++++-------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index fe67b96..6ba7533 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -271,7 +271,6 @@ func newRefTables(referencingColumns tableOutputCols, tables []*Table, externalC
 	asToName := map[string]string{}
 	subqueryAsNames := lib.NewSet[string]()
 	for tName := range externalCols {
-		asToName[tName] = tName
 		subqueryAsNames.Add(tName)
 	}
 	for _, t := range tables {
@@ -292,25 +291,17 @@ func (t *refTables) addSubquery(name, asName string, cols []*outputCol) {
 	t.subqueryAsNames.Add(asName)
 }
 
-func (t *refTables) getTableColsFromName(name string) ([]*outputCol, error) {
-	if cols, ok := t.internalCols[name]; ok {
-		return cols, nil
-	}
-	res, ok := t.externalCols[name]
-	if !ok {
-		return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", name))
-	}
-
-	return res, nil
-}
-
 func (t *refTables) getTableColsFromAsName(asName string) ([]*outputCol, error) {
-	name, ok := t.asToName[asName]
-	if !ok {
-		return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", asName))
+	// tables of the scope hide tables having the same name at the outside
+	if name, ok := t.asToName[asName]; ok {
+		if cols, ok := t.internalCols[name]; ok {
+			return cols, nil
+		}
+	} else if cols, ok := t.externalCols[asName]; ok {
+		return cols, nil
 	}
 
-	return t.getTableColsFromName(name)
+	return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", asName))
 }
 
 func (t *refTables) getReferencingColumnInfos(c *FieldColumn) ([]*columnInfo, error) {
-- 
2.43.0


From 9226da70b6f1baae36744979c666ebb614aa0573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:30 +0000
Subject: [PATCH 11/56] fix: do not ignore USING and NATURAL of JOIN of MySQL

---
 .../dservice/dparser/build_table_fields.go    | 16 ++++++++++----
 .../mservice/parser/collect_stmt_scopes.go    | 21 +++++++++++++++++++
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 6ba7533..9da30fe 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mrasu/GravityR/lib"
 	"github.com/samber/lo"
+	"sort"
 )
 
 type tableOutputCols map[string][]*outputCol
@@ -337,13 +338,20 @@ func (t *refTables) getColumnInfos(colName string) ([]*columnInfo, error) {
 }
 
 func (t *refTables) getColumnInfosFromTableOutputCols(tableOutputs tableOutputCols, colName string) ([]*columnInfo, bool) {
-	for _, fCols := range tableOutputs {
-		for _, fc := range fCols {
+	var res []*columnInfo
+	found := false
+
+	tNames := lo.Keys(tableOutputs)
+	sort.Strings(tNames)
+	for _, tName := range tNames {
+		for _, fc := range tableOutputs[tName] {
 			if colName == fc.name {
-				return fc.referencingColumns, true
+				res = append(res, fc.referencingColumns...)
+				found = true
+				break
 			}
 		}
 	}
 
-	return nil, false
+	return res, found
 }
diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index fdbe560..0ae73be 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -356,12 +356,33 @@ func (sc *scopeCollector) collectJoinReferences(j *ast.Join) ([]*dparser.Table,
 
 	tables, fields := sc.collectReferencingTables(j.Left)
 	rTables, rFields := sc.collectReferencingTables(j.Right)
+	lTables := tables
 	tables = append(tables, rTables...)
 	fields = append(fields, rFields...)
 
+	if j.NaturalJoin {
+		sc.lastError = lib.NewUnsupportedError("not supporting NATURAL JOIN")
+	}
+	for _, col := range j.Using {
+		// USING(col) compares col of both sides
+		cols := []*dparser.FieldColumn{
+			{Table: sc.onlyTableName(lTables), Name: col.Name.L, Type: dparser.FieldCondition},
+			{Table: sc.onlyTableName(rTables), Name: col.Name.L, Type: dparser.FieldCondition},
+		}
+		fields = append(fields, &dparser.Field{Columns: cols})
+	}
 	if j.On != nil {
 		fields = append(fields, &dparser.Field{Columns: sc.collectExprReferences(j.On.Expr, dparser.FieldCondition)})
 	}
 
 	return tables, fields
 }
+
+// onlyTableName returns the name of the table when it is the only one. Otherwise, returns empty to search all tables
+func (sc *scopeCollector) onlyTableName(tables []*dparser.Table) string {
+	if len(tables) != 1 {
+		return ""
+	}
+
+	return tables[0].AsOrName()
+}
-- 
2.43.0


From 1141565eb2a982e45e9c98d5ce65f530558f7fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:07 +0000
Subject: [PATCH 12/56] fix: refuse UNION inside a subquery and WITH of MySQL
 wherever they are

---
 database/mysql/mservice/parser/collect_stmt_scopes.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index 0ae73be..e74d810 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -35,6 +35,11 @@ func CollectStmtScopes(rootNode ast.StmtNode) ([]*dparser.StmtScope, []error) {
 }
 
 func (sc *scopeCollector) Enter(in ast.Node) (ast.Node, bool) {
+	if _, ok := in.(*ast.SetOprStmt); ok {
+		sc.errors = append(sc.errors, lib.NewUnsupportedError("not supporting UNION, EXCEPT etc."))
+		return in, true
+	}
+
 	stmt, ok := in.(*ast.SelectStmt)
 	if !ok {
 		return in, false
@@ -126,10 +131,10 @@ func (sc *scopeCollector) Enter(in ast.Node) (ast.Node, bool) {
 		}
 	}
 	if stmt.Kind == ast.SelectStmtKindValues {
-		sc.lastError = lib.NewInvalidAstError("SELECT for VALUES is not expected")
+		sc.errors = append(sc.errors, lib.NewInvalidAstError("SELECT for VALUES is not expected"))
 	}
 	if stmt.With != nil {
-		sc.lastError = lib.NewInvalidAstError("WITH is not expected")
+		sc.errors = append(sc.errors, lib.NewInvalidAstError("WITH is not expected"))
 	}
 
 	for _, f := range foundFields {
@@ -330,7 +335,7 @@ func (sc *scopeCollector) collectReferencingTables(resultSet ast.ResultSetNode)
 		case *ast.SelectStmt:
 			tables = append(tables, &dparser.Table{AsName: n.AsName.L})
 		case *ast.SetOprStmt:
-			sc.lastError = lib.NewUnsupportedError("not supporting UNION, EXCEPT etc.")
+			// do nothing as it becomes an error when visiting it
 		case *ast.Join:
 			tables, fields = sc.collectJoinReferences(src)
 		default:
-- 
2.43.0


From aa31884352dff12f271f4e176e39a310068b9a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:31 +0000
Subject: [PATCH 13/56] fix: do not take a name of SELECT at ORDER BY for a
 column of another table

---
 .../mservice/parser/collect_stmt_scopes.go    | 26 +++++++++++++++++++
 .../pservice/parser/collect_stmt_scopes.go    | 26 +++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index e74d810..e9bf43e 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -107,6 +107,11 @@ func (sc *scopeCollector) Enter(in ast.Node) (ast.Node, bool) {
 	}
 	if stmt.OrderBy != nil {
 		for _, item := range stmt.OrderBy.Items {
+			if sc.isSelectedName(item.Expr, stmt.Fields.Fields) {
+				// do nothing as the field at SELECT is already handled
+				continue
+			}
+
 			f, err := sc.createFieldFromExpr(item.Expr, dparser.FieldReference)
 			if err == nil {
 				foundFields = append(foundFields, f)
@@ -391,3 +396,24 @@ func (sc *scopeCollector) onlyTableName(tables []*dparser.Table) string {
 
 	return tables[0].AsOrName()
 }
+
+// isSelectedName returns whether expr is a name of fields at SELECT. ORDER BY prefers the name to columns of tables.
+// e.g.) SELECT u.id AS title FROM users u, todos ORDER BY title; <- `title` is `u.id`
+func (sc *scopeCollector) isSelectedName(expr ast.ExprNode, fields []*ast.SelectField) bool {
+	e, ok := expr.(*ast.ColumnNameExpr)
+	if !ok || e.Name.Table.L != "" {
+		return false
+	}
+
+	for _, f := range fields {
+		name := f.AsName.L
+		if c, ok := f.Expr.(*ast.ColumnNameExpr); ok && name == "" {
+			name = c.Name.Name.L
+		}
+		if name == e.Name.Name.L {
+			return true
+		}
+	}
+
+	return false
+}
diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index fd8d3c6..2a0a1a4 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -127,6 +127,11 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 	}
 	if selectNode.OrderBy != nil {
 		for _, o := range selectNode.OrderBy {
+			if sc.isSelectedName(o.Expr, stmt.Exprs) {
+				// do nothing as the field at SELECT is already handled
+				continue
+			}
+
 			f, err := sc.createFieldFromExpr(o.Expr, dparser.FieldReference)
 			if err == nil {
 				foundFields = append(foundFields, f)
@@ -655,3 +660,24 @@ func (sc *scopeCollector) isSchemaSpecifiedTableName(tt *tree.TableName) bool {
 
 	return true
 }
+
+// isSelectedName returns whether expr is a name of fields at SELECT. ORDER BY prefers the name to columns of tables.
+// e.g.) SELECT u.id AS title FROM users u, todos ORDER BY title; <- `title` is `u.id`
+func (sc *scopeCollector) isSelectedName(expr tree.Expr, fields tree.SelectExprs) bool {
+	e, ok := expr.(*tree.UnresolvedName)
+	if !ok || e.NumParts != 1 || e.Star {
+		return false
+	}
+
+	for _, f := range fields {
+		name := string(f.As)
+		if c, ok := f.Expr.(*tree.UnresolvedName); ok && name == "" && !c.Star {
+			name = c.Parts[0]
+		}
+		if name == e.Parts[0] {
+			return true
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From ff79259dc264406a3b29e32dc1e63144a307a99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:23 +0000
Subject: [PATCH 14/56] fix: recognize an existing index of PostgreSQL on a
 column whose name requires quotes

---
 infra/hasura/index_info.go   |  3 ++-
 infra/postgres/index_info.go |  3 ++-
 lib/identifier.go            | 12 ++++++++++++
 3 files changed, 16 insertions(+), 2 deletions(-)
 create mode 100644 lib/identifier.go

diff --git a/infra/hasura/index_info.go b/infra/hasura/index_info.go
index 45b12de..0d5d84b 100644
--- a/infra/hasura/index_info.go
+++ b/infra/hasura/index_info.go
@@ -5,6 +5,7 @@ import (
 	"github.com/lib/pq"
 	"github.com/mrasu/GravityR/lib"
 	"github.com/pkg/errors"
+	"github.com/samber/lo"
 	"strings"
 )
 
@@ -65,7 +66,7 @@ func parseIndexFetchResult(res *RunSQLResponse) ([]*IndexInfo, error) {
 
 		infos = append(infos, &IndexInfo{
 			TableName: r[0],
-			Columns:   cols,
+			Columns:   lo.Map(cols, func(n string, _ int) string { return lib.UnquoteIdentifier(n) }),
 		})
 	}
 
diff --git a/infra/postgres/index_info.go b/infra/postgres/index_info.go
index 4e5bd32..fd4146b 100644
--- a/infra/postgres/index_info.go
+++ b/infra/postgres/index_info.go
@@ -2,6 +2,7 @@ package postgres
 
 import (
 	"github.com/lib/pq"
+	"github.com/mrasu/GravityR/lib"
 	"github.com/samber/lo"
 )
 
@@ -41,7 +42,7 @@ func toIndexInfo(queryInfos []*queryIndexInfo) []*IndexInfo {
 	return lo.Map(queryInfos, func(qi *queryIndexInfo, _ int) *IndexInfo {
 		return &IndexInfo{
 			TableName: qi.TableName,
-			Columns:   qi.ColumnNames,
+			Columns:   lo.Map(qi.ColumnNames, func(n string, _ int) string { return lib.UnquoteIdentifier(n) }),
 		}
 	})
 }
diff --git a/lib/identifier.go b/lib/identifier.go
new file mode 100644
index 0000000..df83d5b
--- /dev/null
+++ b/lib/identifier.go
@@ -0,0 +1,12 @@
+package lib
+
+import "strings"
+
+// UnquoteIdentifier removes quotation from a PostgreSQL's identifier, which is added when the name is not simple. e.g.) "userId"
+func UnquoteIdentifier(name string) string {
+	if len(name) < 2 || !strings.HasPrefix(name, `"`) || !strings.HasSuffix(name, `"`) {
+		return name
+	}
+
+	return strings.ReplaceAll(name[1:len(name)-1], `""`, `"`)
+}
-- 
2.43.0


From 7e4349516478e1a7ae235e3d814679b8137efbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:03 +0000
Subject: [PATCH 15/56] fix: distinguish upper and lower case of a quoted alias
 of PostgreSQL

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 2a0a1a4..161785f 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -501,7 +501,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 
 			// ignore the content of subquery as it will be in different ScopeStmt
 			tables = []*dparser.Table{{
-				AsName:    t.As.Alias.Normalize(),
+				AsName:    string(t.As.Alias),
 				Name:      name,
 				IsLateral: t.Lateral,
 			}}
@@ -509,7 +509,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 			if sc.isSchemaSpecified2(tt, 1) {
 				sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
 			} else {
-				tables = []*dparser.Table{{AsName: t.As.Alias.Normalize(), Name: tt.Parts[0]}}
+				tables = []*dparser.Table{{AsName: string(t.As.Alias), Name: tt.Parts[0]}}
 			}
 		case *tree.StatementSource:
 			sc.lastError = lib.NewUnsupportedError("referencing source like [table] is not supported")
@@ -528,7 +528,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 			if sc.isSchemaSpecifiedTableName(tt) {
 				sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
 			} else {
-				tables = []*dparser.Table{{AsName: t.As.Alias.Normalize(), Name: tt.Table()}}
+				tables = []*dparser.Table{{AsName: string(t.As.Alias), Name: tt.Table()}}
 			}
 		case *tree.TableRef:
 			sc.lastError = lib.NewUnsupportedError("numeric table reference is not supported")
-- 
2.43.0


From 902cc8b12dd22827d0bcb3cd9b1b850c78ef9f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:28 +0000
Subject: [PATCH 16/56] fix: do not lose the last node of PostgreSQL's plan
 when no summary follows it

---
 database/postgres/pservice/explain_analyze_tree_builder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/database/postgres/pservice/explain_analyze_tree_builder.go b/database/postgres/pservice/explain_analyze_tree_builder.go
index 89dddf4..53b3bcf 100644
--- a/database/postgres/pservice/explain_analyze_tree_builder.go
+++ b/database/postgres/pservice/explain_analyze_tree_builder.go
@@ -75,9 +75,6 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 	summaryStartLine := 0
 	for i, line := range explainLines {
 		if summaryReg.MatchString(line) {
-			if len(nodeLines) > 0 {
-				lineNodes = append(lineNodes, nodeLines)
-			}
 			summaryStartLine = i
 			break
 		}
@@ -118,6 +115,9 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 			prevLineType = analyzeLinePlanName
 		}
 	}
+	if len(nodeLines) > 0 {
+		lineNodes = append(lineNodes, nodeLines)
+	}
 
 	sLine := ""
 	if summaryStartLine > 0 {
-- 
2.43.0


From d254035c2af388a73061197cb4da80d3a00bae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:20 +0000
Subject: [PATCH 17/56] fix: read figures of plans having exponents or
 fractional rows

---
 .../mmodel/explain_analyze_result_line.go     | 12 +++++++----
 .../pmodel/explain_analyze_result_node.go     |  5 +++--
 lib/number.go                                 | 21 +++++++++++++++++++
 3 files changed, 32 insertions(+), 6 deletions(-)
 create mode 100644 lib/number.go

diff --git a/database/mysql/mmodel/explain_analyze_result_line.go b/database/mysql/mmodel/explain_analyze_result_line.go
index 542724b..314f188 100644
--- a/database/mysql/mmodel/explain_analyze_result_line.go
+++ b/database/mysql/mmodel/explain_analyze_result_line.go
@@ -2,6 +2,7 @@ package mmodel
 
 import (
 	"fmt"
+	"github.com/mrasu/GravityR/lib"
 	"github.com/pkg/errors"
 	"gopkg.in/guregu/null.v4"
 	"regexp"
@@ -27,13 +28,16 @@ type ExplainAnalyzeResultLine struct {
 	ActualLoopCount    null.Int
 }
 
+// numPattern matches a number of EXPLAIN ANALYZE, which uses exponents for big numbers. e.g.) 12, 0.35, 1.23e+6
+const numPattern = `\d+(?:\.\d+)?(?:e[+-]?\d+)?`
+
 var prefixIndentReg = regexp.MustCompile(`^\s*`)
 var onReg = regexp.MustCompile(` on (\w+)`)
 var filterReg = regexp.MustCompile(` Filter: \((\w+)\.`)
 var sortReg = regexp.MustCompile(` Sort: (\w+)\.`)
 var aggregateReg = regexp.MustCompile(` Aggregate: \w+\((\w+)\.`)
-var analyzeEstimationReg = regexp.MustCompile(`\(cost=([\d.]+?)(\.\.([\d.]+?))?( rows=(\d+))?\)`)
-var analyzeActualReg = regexp.MustCompile(`\(actual time=([\d.]+?)\.\.([\d.]+?) rows=(\d+) loops=(\d+)\)`)
+var analyzeEstimationReg = regexp.MustCompile(`\(cost=(` + numPattern + `)(\.\.(` + numPattern + `))?( rows=(` + numPattern + `))?\)`)
+var analyzeActualReg = regexp.MustCompile(`\(actual time=(` + numPattern + `)\.\.(` + numPattern + `) rows=(` + numPattern + `) loops=(\d+)\)`)
 
 func ParseExplainAnalyzeResultLine(line string) (int, *ExplainAnalyzeResultLine, error) {
 	resLine := &ExplainAnalyzeResultLine{
@@ -64,7 +68,7 @@ func ParseExplainAnalyzeResultLine(line string) (int, *ExplainAnalyzeResultLine,
 		}
 
 		if em[4] != "" {
-			eRowNum, err := strconv.ParseInt(em[5], 10, 64)
+			eRowNum, err := lib.ParseRoundedInt(em[5])
 			if err != nil {
 				return 0, nil, errors.Wrap(err, fmt.Sprintf("failed to parse analyze(%s): %s", em[4], line))
 			}
@@ -87,7 +91,7 @@ func ParseExplainAnalyzeResultLine(line string) (int, *ExplainAnalyzeResultLine,
 		}
 		resLine.ActualTimeAvg = null.FloatFrom(time)
 
-		rowNum, err := strconv.ParseInt(am[3], 10, 64)
+		rowNum, err := lib.ParseRoundedInt(am[3])
 		if err != nil {
 			return 0, nil, errors.Wrap(err, fmt.Sprintf("failed to parse analyze(%s): %s", am[3], line))
 		}
diff --git a/database/postgres/pmodel/explain_analyze_result_node.go b/database/postgres/pmodel/explain_analyze_result_node.go
index e7b851f..355740c 100644
--- a/database/postgres/pmodel/explain_analyze_result_node.go
+++ b/database/postgres/pmodel/explain_analyze_result_node.go
@@ -2,6 +2,7 @@ package pmodel
 
 import (
 	"fmt"
+	"github.com/mrasu/GravityR/lib"
 	"github.com/pkg/errors"
 	"gopkg.in/guregu/null.v4"
 	"regexp"
@@ -33,7 +34,7 @@ var onWithNamespaceReg = regexp.MustCompile(` on "?([\w.]+)"?`)
 var keyReg = regexp.MustCompile(` Key: (\w+)\.`)
 var metricLineReg = regexp.MustCompile(`\(cost=.+\)( \(actual .+\))?`)
 var analyzeEstimationReg = regexp.MustCompile(`\(cost=([\d.]+?)\.\.([\d.]+?) rows=(\d+) width=(\d+)\)`)
-var analyzeActualReg = regexp.MustCompile(`\(actual time=([\d.]+?)\.\.([\d.]+?) rows=(\d+) loops=(\d+)\)`)
+var analyzeActualReg = regexp.MustCompile(`\(actual time=([\d.]+?)\.\.([\d.]+?) rows=([\d.]+?) loops=(\d+)\)`)
 
 func ParseExplainAnalyzeResultLineNode(lines []string) (int, *ExplainAnalyzeResultNode, error) {
 	resLine := &ExplainAnalyzeResultNode{
@@ -85,7 +86,7 @@ func ParseExplainAnalyzeResultLineNode(lines []string) (int, *ExplainAnalyzeResu
 		}
 		resLine.ActualTimeAvg = null.FloatFrom(time)
 
-		rowNum, err := strconv.ParseInt(am[3], 10, 64)
+		rowNum, err := lib.ParseRoundedInt(am[3])
 		if err != nil {
 			return 0, nil, errors.Wrap(err, fmt.Sprintf("failed to parse analyze(%s): %s", am[3], mLine))
 		}
diff --git a/lib/number.go b/lib/number.go
new file mode 100644
index 0000000..84d2df6
--- /dev/null
+++ b/lib/number.go
@@ -0,0 +1,21 @@
+package lib
+
+import (
+	"math"
+	"strconv"
+)
+
+// ParseRoundedInt converts text to int64. When text is not an integer (e.g. 0.6, 1.23e+6), the nearest integer is returned.
+func ParseRoundedInt(text string) (int64, error) {
+	i, err := strconv.ParseInt(text, 10, 64)
+	if err == nil {
+		return i, nil
+	}
+
+	f, err := strconv.ParseFloat(text, 64)
+	if err != nil {
+		return 0, err
+	}
+
+	return int64(math.Round(f)), nil
+}
-- 
2.43.0


From d6da8987fb39b4556dc3c22511f9fdf11c0de275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:03 +0000
Subject: [PATCH 18/56] fix: do not take a word in conditions for the table of
 a plan node

---
 .../mmodel/explain_analyze_result_line.go     |  3 ++-
 .../pmodel/explain_analyze_result_node.go     | 21 +++++++++++--------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/database/mysql/mmodel/explain_analyze_result_line.go b/database/mysql/mmodel/explain_analyze_result_line.go
index 314f188..5f6f0ba 100644
--- a/database/mysql/mmodel/explain_analyze_result_line.go
+++ b/database/mysql/mmodel/explain_analyze_result_line.go
@@ -32,7 +32,8 @@ type ExplainAnalyzeResultLine struct {
 const numPattern = `\d+(?:\.\d+)?(?:e[+-]?\d+)?`
 
 var prefixIndentReg = regexp.MustCompile(`^\s*`)
-var onReg = regexp.MustCompile(` on (\w+)`)
+// onReg doesn't look at the inside of conditions (e.g. `-> Filter: (t.title = 'work on sunday')`)
+var onReg = regexp.MustCompile(`^[^:(]* on (\w+)`)
 var filterReg = regexp.MustCompile(` Filter: \((\w+)\.`)
 var sortReg = regexp.MustCompile(` Sort: (\w+)\.`)
 var aggregateReg = regexp.MustCompile(` Aggregate: \w+\((\w+)\.`)
diff --git a/database/postgres/pmodel/explain_analyze_result_node.go b/database/postgres/pmodel/explain_analyze_result_node.go
index 355740c..f390b09 100644
--- a/database/postgres/pmodel/explain_analyze_result_node.go
+++ b/database/postgres/pmodel/explain_analyze_result_node.go
@@ -105,17 +105,20 @@ func ParseExplainAnalyzeResultLineNode(lines []string) (int, *ExplainAnalyzeResu
 
 func extractTableFromExplainAnalyzeResultLine(lines []string) string {
 	for _, line := range lines {
-		m := onReg.FindStringSubmatch(line)
-		if m != nil {
-			return m[1]
-		}
-
-		m = onWithNamespaceReg.FindStringSubmatch(line)
-		if m != nil {
-			return m[1]
+		// a table is at the line of the node only. " on " in the other lines is a part of conditions
+		if metricLineReg.MatchString(line) {
+			m := onReg.FindStringSubmatch(line)
+			if m != nil {
+				return m[1]
+			}
+
+			m = onWithNamespaceReg.FindStringSubmatch(line)
+			if m != nil {
+				return m[1]
+			}
 		}
 
-		m = keyReg.FindStringSubmatch(line)
+		m := keyReg.FindStringSubmatch(line)
 		if m != nil {
 			return m[1]
 		}
-- 
2.43.0


From 26d3b74849277429afb9d1e22aa53b8bf438283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:32 +0000
Subject: [PATCH 19/56] fix: do not count time outside a span as consumed by it

---
 otel/omodel/span.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/otel/omodel/span.go b/otel/omodel/span.go
index 87ef35c..3e7d106 100644
--- a/otel/omodel/span.go
+++ b/otel/omodel/span.go
@@ -70,7 +70,8 @@ func (s *Span) IsSame(other *Span) bool {
 func (s *Span) CalcConsumedTime() uint64 {
 	var childTimes [][]uint64
 	for _, c := range s.Children {
-		childTimes = append(childTimes, []uint64{c.StartTimeUnixNano, c.EndTimeUnixNano})
+		// child can be outside the span when it is executed asynchronously
+		childTimes = append(childTimes, []uint64{s.clampTime(c.StartTimeUnixNano), s.clampTime(c.EndTimeUnixNano)})
 	}
 	lib.Sort(childTimes, func(t []uint64) uint64 { return t[0] })
 
@@ -89,6 +90,16 @@ func (s *Span) CalcConsumedTime() uint64 {
 	return consumedTime
 }
 
+func (s *Span) clampTime(t uint64) uint64 {
+	if t < s.StartTimeUnixNano {
+		return s.StartTimeUnixNano
+	}
+	if t > s.EndTimeUnixNano {
+		return s.EndTimeUnixNano
+	}
+	return t
+}
+
 func (s *Span) ToViewModel() *viewmodel.VmOtelTraceSpan {
 	children := lo.Map(s.Children, func(c *Span, _ int) *viewmodel.VmOtelTraceSpan { return c.ToViewModel() })
 
-- 
2.43.0


From 5d66139d40ea9f42ee75df2c2eba8b69faec29e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:40 +0000
Subject: [PATCH 20/56] fix: do not show a trace twice when it is found at
 several time ranges

---
 otel/jaeger/trace_fetcher.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/otel/jaeger/trace_fetcher.go b/otel/jaeger/trace_fetcher.go
index aa1428f..25e45b6 100644
--- a/otel/jaeger/trace_fetcher.go
+++ b/otel/jaeger/trace_fetcher.go
@@ -7,6 +7,7 @@ import (
 	"github.com/mrasu/GravityR/lib"
 	"github.com/mrasu/GravityR/otel/omodel"
 	"github.com/rs/zerolog/log"
+	"github.com/samber/lo"
 	"time"
 )
 
@@ -22,6 +23,7 @@ func (tf *TraceFetcher) FetchCompactedTraces(size int32, start, end time.Time, s
 	interval := 30 * time.Minute
 
 	var res []*omodel.TraceTree
+	foundTraceIds := lib.NewSet[string]()
 	times := lib.GenerateTimeRanges(start, end, interval)
 	for _, start := range times {
 		param := &api_v3.TraceQueryParameters{
@@ -37,7 +39,14 @@ func (tf *TraceFetcher) FetchCompactedTraces(size int32, start, end time.Time, s
 		if err != nil {
 			return nil, err
 		}
-		res = append(res, trees...)
+		// A trace having spans at several ranges is found at each of them
+		newTrees := lo.Reject(trees, func(tree *omodel.TraceTree, _ int) bool {
+			return foundTraceIds.Contains(string(tree.Root.TraceId))
+		})
+		for _, tree := range newTrees {
+			foundTraceIds.Add(string(tree.Root.TraceId))
+		}
+		res = append(res, newTrees...)
 	}
 
 	return res, nil
-- 
2.43.0


From ba5339fb9c4a0bf63642ed2479a517a6355f765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:48 +0000
Subject: [PATCH 21/56] fix: accept an attribute having no value instead of
 crashing

---
 otel/jaeger/v1_converter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/otel/jaeger/v1_converter.go b/otel/jaeger/v1_converter.go
index 05a039b..25c6dde 100644
--- a/otel/jaeger/v1_converter.go
+++ b/otel/jaeger/v1_converter.go
@@ -85,6 +85,11 @@ func (c *v1Converter) toAnyValue(v *v1.AnyValue) *omodel.AnyValue {
 }
 
 func (c *v1Converter) toAnyValueData(v *v1.AnyValue) omodel.AnyValueDatum {
+	if v == nil || v.Value == nil {
+		// OpenTelemetry allows empty value
+		return nil
+	}
+
 	switch vv := v.Value.(type) {
 	case *v1.AnyValue_StringValue:
 		return &omodel.AnyValueString{StringValue: vv.StringValue}
-- 
2.43.0


From f3a092c0eacc027a42251a137d6a37959970b586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:23 +0000
Subject: [PATCH 22/56] fix: do not lose all database load when the start time
 is at a zone not aligned with hours

---
 infra/aws/pi_sql_load_avg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infra/aws/pi_sql_load_avg.go b/infra/aws/pi_sql_load_avg.go
index 3d30367..9f34e7a 100644
--- a/infra/aws/pi_sql_load_avg.go
+++ b/infra/aws/pi_sql_load_avg.go
@@ -66,7 +66,7 @@ func ConvertPiSQLLoadAvgsToVms(start, end time.Time, avgs []*PiSQLLoadAvg) []*vi
 		}
 	}
 
-	target := lib.NormalizeTimeByHour(start).UTC()
+	target := lib.NormalizeTimeByHour(start.UTC())
 	var res []*viewmodel.VmTimeDbLoad
 	for !target.After(end) {
 		if l, ok := sqlLoadMap[target]; ok {
-- 
2.43.0


From e0ee6d88236639932a11bcf793f66083ba02ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:40 +0000
Subject: [PATCH 23/56] fix: read database instances on every page of RDS

---
 infra/aws/rds.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/infra/aws/rds.go b/infra/aws/rds.go
index 744c93c..e60a00a 100644
--- a/infra/aws/rds.go
+++ b/infra/aws/rds.go
@@ -25,21 +25,25 @@ func NewRdsWithCli(cli aRds.DescribeDBInstancesAPIClient) *Rds {
 }
 
 func (rds *Rds) GetDBs(engines []string) ([]*RdsDB, error) {
-	output, err := rds.client.DescribeDBInstances(context.Background(), &aRds.DescribeDBInstancesInput{
+	paginator := aRds.NewDescribeDBInstancesPaginator(rds.client, &aRds.DescribeDBInstancesInput{
 		Filters: []types.Filter{
 			{Name: lib.Ptr("engine"), Values: engines},
 		},
 	})
-	if err != nil {
-		return nil, errors.Wrap(err, "failed to describe db instances")
-	}
 
 	var res []*RdsDB
-	for _, ins := range output.DBInstances {
-		res = append(res, &RdsDB{
-			InstanceIdentifier: *ins.DBInstanceIdentifier,
-			DbiResourceId:      *ins.DbiResourceId,
-		})
+	for paginator.HasMorePages() {
+		output, err := paginator.NextPage(context.Background())
+		if err != nil {
+			return nil, errors.Wrap(err, "failed to describe db instances")
+		}
+
+		for _, ins := range output.DBInstances {
+			res = append(res, &RdsDB{
+				InstanceIdentifier: *ins.DBInstanceIdentifier,
+				DbiResourceId:      *ins.DbiResourceId,
+			})
+		}
 	}
 
 	return res, nil
-- 
2.43.0


From 94028eb539f406f76593d0d15623d0f4979d2b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:00 +0000
Subject: [PATCH 24/56] fix: read metrics on every page of PerformanceInsights

---
 infra/aws/performance_insights.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/infra/aws/performance_insights.go b/infra/aws/performance_insights.go
index 0bb20b0..bace8d0 100644
--- a/infra/aws/performance_insights.go
+++ b/infra/aws/performance_insights.go
@@ -29,27 +29,27 @@ func NewPerformanceInsightsWithCli(cli aPi.GetResourceMetricsAPIClient) *Perform
 }
 
 func (pi *PerformanceInsights) GetHalfDaySqlMetrics(db *RdsDB, start time.Time) ([]*PiSQLLoadAvg, error) {
-	output, err := pi.getHalfDayMetrics(db, start, sqlGroupName)
+	metrics, err := pi.getHalfDayMetrics(db, start, sqlGroupName)
 	if err != nil {
 		return nil, err
 	}
 
-	res := pi.convertResourceMetricsToAvgs(db, output, "db.sql.statement", "db.sql.tokenized_id")
+	res := pi.convertResourceMetricsToAvgs(db, metrics, "db.sql.statement", "db.sql.tokenized_id")
 	return res, nil
 }
 
 func (pi *PerformanceInsights) GetHalfDayTokenizedSqlMetrics(db *RdsDB, start time.Time) ([]*PiSQLLoadAvg, error) {
-	output, err := pi.getHalfDayMetrics(db, start, tokenizedSqlGroupName)
+	metrics, err := pi.getHalfDayMetrics(db, start, tokenizedSqlGroupName)
 	if err != nil {
 		return nil, err
 	}
 
-	res := pi.convertResourceMetricsToAvgs(db, output, "db.sql_tokenized.statement", "db.sql_tokenized.id")
+	res := pi.convertResourceMetricsToAvgs(db, metrics, "db.sql_tokenized.statement", "db.sql_tokenized.id")
 	return res, nil
 }
 
-func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, group string) (*aPi.GetResourceMetricsOutput, error) {
-	output, err := pi.client.GetResourceMetrics(context.Background(), &aPi.GetResourceMetricsInput{
+func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, group string) ([]types.MetricKeyDataPoints, error) {
+	paginator := aPi.NewGetResourceMetricsPaginator(pi.client, &aPi.GetResourceMetricsInput{
 		Identifier: &db.DbiResourceId,
 		MetricQueries: []types.MetricQuery{
 			{
@@ -66,16 +66,21 @@ func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, gro
 		PeriodInSeconds: lib.Ptr(int32(300)),
 	})
 
-	if err != nil {
-		return nil, errors.Wrap(err, "failed to call GetResourceMetrics of PerformanceInsights")
+	var res []types.MetricKeyDataPoints
+	for paginator.HasMorePages() {
+		output, err := paginator.NextPage(context.Background())
+		if err != nil {
+			return nil, errors.Wrap(err, "failed to call GetResourceMetrics of PerformanceInsights")
+		}
+		res = append(res, output.MetricList...)
 	}
 
-	return output, nil
+	return res, nil
 }
 
-func (pi *PerformanceInsights) convertResourceMetricsToAvgs(db *RdsDB, output *aPi.GetResourceMetricsOutput, sqlKey, tokenizedIdKey string) []*PiSQLLoadAvg {
+func (pi *PerformanceInsights) convertResourceMetricsToAvgs(db *RdsDB, metrics []types.MetricKeyDataPoints, sqlKey, tokenizedIdKey string) []*PiSQLLoadAvg {
 	var res []*PiSQLLoadAvg
-	for _, m := range output.MetricList {
+	for _, m := range metrics {
 		if m.Key.Metric == nil || *m.Key.Metric != loadAvgMetricName {
 			continue
 		}
-- 
2.43.0


From 2b69dc59f7e6a3f1e32ba0749683267155370836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:17 +0000
Subject: [PATCH 25/56] fix: do not crash by an answer of AWS lacking names

---
 infra/aws/performance_insights.go | 2 +-
 infra/aws/rds.go                  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/infra/aws/performance_insights.go b/infra/aws/performance_insights.go
index bace8d0..7d668fc 100644
--- a/infra/aws/performance_insights.go
+++ b/infra/aws/performance_insights.go
@@ -81,7 +81,7 @@ func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, gro
 func (pi *PerformanceInsights) convertResourceMetricsToAvgs(db *RdsDB, metrics []types.MetricKeyDataPoints, sqlKey, tokenizedIdKey string) []*PiSQLLoadAvg {
 	var res []*PiSQLLoadAvg
 	for _, m := range metrics {
-		if m.Key.Metric == nil || *m.Key.Metric != loadAvgMetricName {
+		if m.Key == nil || m.Key.Metric == nil || *m.Key.Metric != loadAvgMetricName {
 			continue
 		}
 		if m.Key.Dimensions == nil {
diff --git a/infra/aws/rds.go b/infra/aws/rds.go
index e60a00a..1fabb87 100644
--- a/infra/aws/rds.go
+++ b/infra/aws/rds.go
@@ -39,6 +39,9 @@ func (rds *Rds) GetDBs(engines []string) ([]*RdsDB, error) {
 		}
 
 		for _, ins := range output.DBInstances {
+			if ins.DBInstanceIdentifier == nil || ins.DbiResourceId == nil {
+				return nil, errors.New("db instance without identifier was returned")
+			}
 			res = append(res, &RdsDB{
 				InstanceIdentifier: *ins.DBInstanceIdentifier,
 				DbiResourceId:      *ins.DbiResourceId,
-- 
2.43.0


From 349da8c8429b53c75db6869999fddfdfdc1b1e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:20 +0000
Subject: [PATCH 26/56] fix: do not round numbers in variables of GraphQL

---
 cmd/db/suggest/hasura/postgres.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/db/suggest/hasura/postgres.go b/cmd/db/suggest/hasura/postgres.go
index 8fe1f74..fc2c707 100644
--- a/cmd/db/suggest/hasura/postgres.go
+++ b/cmd/db/suggest/hasura/postgres.go
@@ -16,6 +16,7 @@ import (
 	"github.com/rs/zerolog/log"
 	"github.com/samber/lo"
 	"github.com/spf13/cobra"
+	"strings"
 )
 
 var PostgresCmd = &cobra.Command{
@@ -132,8 +133,16 @@ func (pr *postgresRunner) suggest(outputPath string, cli *hasura.Client) error {
 }
 
 func (pr *postgresRunner) parseJSONToVariables(jsonStr string) (map[string]interface{}, error) {
+	if !json.Valid([]byte(jsonStr)) {
+		return nil, errors.Errorf("failed to parse variables: invalid JSON: %s", jsonStr)
+	}
+
+	// Numbers are kept as they are written because float64 cannot hold all of them
+	decoder := json.NewDecoder(strings.NewReader(jsonStr))
+	decoder.UseNumber()
+
 	var variables map[string]interface{}
-	if err := json.Unmarshal([]byte(jsonStr), &variables); err != nil {
+	if err := decoder.Decode(&variables); err != nil {
 		return nil, errors.Wrap(err, "failed to parse variables")
 	}
 
-- 
2.43.0


From ae63cee10146bef2638be437f3d64e37d6db3854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:27 +0000
Subject: [PATCH 27/56] fix: accept quotes and backslashes in settings of
 PostgreSQL

---
 infra/postgres/config.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/infra/postgres/config.go b/infra/postgres/config.go
index 0c5a871..ead04a9 100644
--- a/infra/postgres/config.go
+++ b/infra/postgres/config.go
@@ -6,6 +6,9 @@ import (
 	"strings"
 )
 
+// kvValueEscaper escapes characters having special meaning in a quoted value of libpq's connection string
+var kvValueEscaper = strings.NewReplacer(`\`, `\\`, `'`, `\'`)
+
 type Config struct {
 	user       string
 	password   string
@@ -47,19 +50,19 @@ func NewConfigFromEnv() (*Config, error) {
 func (cfg *Config) GetKVConnectionString() string {
 	var texts []string
 	if cfg.user != "" {
-		texts = append(texts, "user='"+cfg.user+"'")
+		texts = append(texts, toKVText("user", cfg.user))
 	}
 	if cfg.password != "" {
-		texts = append(texts, "password='"+cfg.password+"'")
+		texts = append(texts, toKVText("password", cfg.password))
 	}
 	if cfg.host != "" {
-		texts = append(texts, "host='"+cfg.host+"'")
+		texts = append(texts, toKVText("host", cfg.host))
 	}
 	if cfg.port != "" {
-		texts = append(texts, "port='"+cfg.port+"'")
+		texts = append(texts, toKVText("port", cfg.port))
 	}
 	if cfg.DBName != "" {
-		texts = append(texts, "dbname='"+cfg.DBName+"'")
+		texts = append(texts, toKVText("dbname", cfg.DBName))
 	}
 	if cfg.paramText != "" {
 		texts = append(texts, cfg.paramText)
@@ -69,6 +72,10 @@ func (cfg *Config) GetKVConnectionString() string {
 	return strings.Join(texts, " ")
 }
 
+func toKVText(key, value string) string {
+	return key + "='" + kvValueEscaper.Replace(value) + "'"
+}
+
 func (cfg *Config) GetSearchPathOrPublic() string {
 	if cfg.searchPath == "" {
 		return "public"
-- 
2.43.0


From de90c53a2b018b29a471bc6396fdd6439233960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:34 +0000
Subject: [PATCH 28/56] fix: do not override sslmode given by DB_PARAM_TEXT

---
 infra/postgres/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infra/postgres/config.go b/infra/postgres/config.go
index ead04a9..0af99ff 100644
--- a/infra/postgres/config.go
+++ b/infra/postgres/config.go
@@ -64,10 +64,10 @@ func (cfg *Config) GetKVConnectionString() string {
 	if cfg.DBName != "" {
 		texts = append(texts, toKVText("dbname", cfg.DBName))
 	}
+	texts = append(texts, "sslmode=disable")
 	if cfg.paramText != "" {
 		texts = append(texts, cfg.paramText)
 	}
-	texts = append(texts, "sslmode=disable")
 
 	return strings.Join(texts, " ")
 }
-- 
2.43.0


From 4fde4f3f20605182f8d3bcf4fc106f4a6eb3717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:42 +0000
Subject: [PATCH 29/56] fix: accept any character in username and database of
 MySQL

---
 infra/mysql/config.go | 22 +++++++++++++++++-----
 infra/mysql/db.go     |  6 +++---
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/infra/mysql/config.go b/infra/mysql/config.go
index 94c4656..f4934d0 100644
--- a/infra/mysql/config.go
+++ b/infra/mysql/config.go
@@ -1,8 +1,10 @@
 package mysql
 
 import (
+	"database/sql/driver"
 	"github.com/go-sql-driver/mysql"
 	"github.com/mrasu/GravityR/lib"
+	"github.com/pkg/errors"
 	"os"
 )
 
@@ -45,13 +47,23 @@ func NewConfigFromEnv() (*Config, error) {
 	}, nil
 }
 
-func (cfg *Config) ToDSN() string {
-	dsn := cfg.config.FormatDSN()
-	if len(cfg.paramText) > 0 {
-		dsn += "?" + cfg.paramText
+// ToConnector doesn't build DSN because DSN cannot hold some characters of username or database
+func (cfg *Config) ToConnector() (driver.Connector, error) {
+	config, err := mysql.ParseDSN("/?" + cfg.paramText)
+	if err != nil {
+		return nil, errors.Wrap(err, "failed to parse parameters")
 	}
+	config.User = cfg.config.User
+	config.Passwd = cfg.config.Passwd
+	config.Net = cfg.config.Net
+	config.Addr = cfg.config.Addr
+	config.DBName = cfg.config.DBName
 
-	return dsn
+	connector, err := mysql.NewConnector(config)
+	if err != nil {
+		return nil, errors.Wrap(err, "invalid configuration")
+	}
+	return connector, nil
 }
 
 func (cfg *Config) GetDBName() string {
diff --git a/infra/mysql/db.go b/infra/mysql/db.go
index 23779a4..c48a775 100644
--- a/infra/mysql/db.go
+++ b/infra/mysql/db.go
@@ -13,13 +13,13 @@ type DB struct {
 }
 
 func OpenMySQLDB(cfg *Config) (*DB, error) {
-	dsn := cfg.ToDSN()
-
-	db, err := sqlx.Open("mysql", dsn)
+	connector, err := cfg.ToConnector()
 	if err != nil {
 		return nil, errors.Wrap(err, "failed to connect")
 	}
 
+	db := sqlx.NewDb(sql.OpenDB(connector), "mysql")
+
 	db.SetConnMaxLifetime(time.Minute * 3)
 	db.SetMaxOpenConns(10)
 	db.SetMaxIdleConns(10)
-- 
2.43.0


From efbd2a7267a47900583e549ec64254822c3f6f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:43 +0000
Subject: [PATCH 30/56] fix: do not crash by an unexpected answer of Hasura

---
 infra/hasura/client.go      | 8 ++++++--
 infra/hasura/column_info.go | 8 ++++++--
 infra/hasura/index_info.go  | 4 ++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/infra/hasura/client.go b/infra/hasura/client.go
index d07bcae..b6c8306 100644
--- a/infra/hasura/client.go
+++ b/infra/hasura/client.go
@@ -66,6 +66,11 @@ func (c *Client) Explain(body *ExplainRequestBody) ([]*ExplainResponse, error) {
 	if err != nil {
 		return nil, errors.Wrap(err, "failed to decode response from Hasura")
 	}
+	for _, r := range eres {
+		if r == nil {
+			return nil, errors.Errorf("unexpected response from Hasura: %s", string(res))
+		}
+	}
 	return eres, nil
 }
 
@@ -106,8 +111,7 @@ func (c *Client) GetTableColumns(schema string, tableNames []string) ([]*ColumnI
 	if err != nil {
 		return nil, err
 	}
-	cols := parseColumnFetchResult(res)
-	return cols, nil
+	return parseColumnFetchResult(res)
 }
 
 func (c *Client) GetIndexes(schema string, tableNames []string) ([]*IndexInfo, error) {
diff --git a/infra/hasura/column_info.go b/infra/hasura/column_info.go
index 3be333f..cad0b18 100644
--- a/infra/hasura/column_info.go
+++ b/infra/hasura/column_info.go
@@ -52,7 +52,7 @@ func buildColumnFetchQuery(schema string, tableNames []string) (string, error) {
 	return q, nil
 }
 
-func parseColumnFetchResult(res *RunSQLResponse) []*ColumnInfo {
+func parseColumnFetchResult(res *RunSQLResponse) ([]*ColumnInfo, error) {
 	var cols []*ColumnInfo
 	for i, r := range res.Result {
 		if i == 0 {
@@ -60,6 +60,10 @@ func parseColumnFetchResult(res *RunSQLResponse) []*ColumnInfo {
 			continue
 		}
 
+		if len(r) != 3 {
+			return nil, errors.Errorf("unexpected result from hasura to fetch columns: %v", r)
+		}
+
 		isPk := false
 		if r[2] == "t" {
 			isPk = true
@@ -72,5 +76,5 @@ func parseColumnFetchResult(res *RunSQLResponse) []*ColumnInfo {
 		})
 	}
 
-	return cols
+	return cols, nil
 }
diff --git a/infra/hasura/index_info.go b/infra/hasura/index_info.go
index 0d5d84b..3e2d2ee 100644
--- a/infra/hasura/index_info.go
+++ b/infra/hasura/index_info.go
@@ -58,6 +58,10 @@ func parseIndexFetchResult(res *RunSQLResponse) ([]*IndexInfo, error) {
 			continue
 		}
 
+		if len(r) != 2 {
+			return nil, errors.Errorf("unexpected result from hasura to fetch indexes: %v", r)
+		}
+
 		cols := pq.StringArray{}
 		err := cols.Scan(r[1])
 		if err != nil {
-- 
2.43.0


From 9fa2960b55c56fd3ad42ff5e61a19905b441187e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:16 +0000
Subject: [PATCH 31/56] fix: keep escaped characters in the path of HASURA_URL

---
 infra/hasura/client.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/infra/hasura/client.go b/infra/hasura/client.go
index b6c8306..0078d7d 100644
--- a/infra/hasura/client.go
+++ b/infra/hasura/client.go
@@ -9,7 +9,6 @@ import (
 	"io"
 	"net/http"
 	"net/url"
-	"path"
 )
 
 const (
@@ -163,7 +162,5 @@ func (c *Client) post(pathname string, body interface{}) ([]byte, error) {
 }
 
 func (c *Client) resolveURL(pathname string) string {
-	u := *c.baseURL
-	u.Path = path.Join(u.Path, pathname)
-	return u.String()
+	return c.baseURL.JoinPath(pathname).String()
 }
-- 
2.43.0


From d91855028d64ab3958ccfdc2c84b3c307c473da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:24 +0000
Subject: [PATCH 32/56] fix: do not fail at a table having a functional index
 of MySQL

---
 infra/mysql/index_info.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/infra/mysql/index_info.go b/infra/mysql/index_info.go
index 14c4b46..7385eaa 100644
--- a/infra/mysql/index_info.go
+++ b/infra/mysql/index_info.go
@@ -1,5 +1,7 @@
 package mysql
 
+import "database/sql"
+
 const indexFetchQuery = `
 SELECT
 	TABLE_NAME,
@@ -20,9 +22,10 @@ type IndexInfo struct {
 }
 
 type flatIndexInfo struct {
-	TableName  string `db:"TABLE_NAME"`
-	IndexName  string `db:"INDEX_NAME"`
-	ColumnName string `db:"COLUMN_NAME"`
+	TableName string `db:"TABLE_NAME"`
+	IndexName string `db:"INDEX_NAME"`
+	// ColumnName is NULL when the part of the index is an expression
+	ColumnName sql.NullString `db:"COLUMN_NAME"`
 }
 
 func toIndexInfo(orderedFlatInfo []*flatIndexInfo) []*IndexInfo {
@@ -33,11 +36,11 @@ func toIndexInfo(orderedFlatInfo []*flatIndexInfo) []*IndexInfo {
 	for _, flatInfo := range orderedFlatInfo {
 		if lastTName == flatInfo.TableName && lastIName == flatInfo.IndexName {
 			idx := infos[len(infos)-1]
-			idx.Columns = append(idx.Columns, flatInfo.ColumnName)
+			idx.Columns = append(idx.Columns, flatInfo.ColumnName.String)
 		} else {
 			infos = append(infos, &IndexInfo{
 				TableName: flatInfo.TableName,
-				Columns:   []string{flatInfo.ColumnName},
+				Columns:   []string{flatInfo.ColumnName.String},
 			})
 		}
 
-- 
2.43.0


From 15e51286ab086566679fea4204d89a7d78f7d172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:22 +0000
Subject: [PATCH 33/56] fix: do not fail at a column of MySQL having an upper
 case letter in the name

---
 database/mysql/mservice/parser/collect_table_schemas.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database/mysql/mservice/parser/collect_table_schemas.go b/database/mysql/mservice/parser/collect_table_schemas.go
index bc87b80..d9574bf 100644
--- a/database/mysql/mservice/parser/collect_table_schemas.go
+++ b/database/mysql/mservice/parser/collect_table_schemas.go
@@ -6,6 +6,7 @@ import (
 	"github.com/mrasu/GravityR/infra/mysql"
 	"github.com/mrasu/GravityR/lib"
 	"github.com/rs/zerolog/log"
+	"strings"
 )
 
 func CollectTableSchemas(db *mysql.DB, dbName string, tables []string) ([]*dparser.TableSchema, error) {
@@ -15,7 +16,8 @@ func CollectTableSchemas(db *mysql.DB, dbName string, tables []string) ([]*dpars
 	}
 
 	schemas := dparser.CreateTableSchemas(tables, cols, func(c *mysql.ColumnInfo) (string, string, bool) {
-		return c.TableName, c.ColumnName, c.ColumnKey == "PRI"
+		// names of columns are case-insensitive at MySQL. Queries are parsed as lower case too
+		return c.TableName, strings.ToLower(c.ColumnName), c.ColumnKey == "PRI"
 	})
 
 	for i, table := range tables {
-- 
2.43.0


From 3cb3d8912d559ce27263660abf31792d6378e969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:34 +0000
Subject: [PATCH 34/56] fix: do not ignore a column with COLLATE of MySQL

---
 database/mysql/mservice/parser/collect_stmt_scopes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index e9bf43e..307c8ca 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -254,7 +254,8 @@ func (sc *scopeCollector) collectExprReferences(expr ast.ExprNode, defaultType d
 			res = append(res, &dparser.FieldColumn{Table: c.Table.L, Name: c.Name.L, Type: defaultType})
 		}
 	case *ast.SetCollationExpr:
-		// do nothing as COLLATE doesn't relate to table's column
+		// COLLATE itself doesn't relate to table's column
+		res = append(res, sc.collectExprReferences(e.Expr, defaultType)...)
 	case *ast.FuncCallExpr:
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
-- 
2.43.0


From ddd89a3441fc575144ddcc88690e3e8f6ecb6f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 35/56] fix: do not ignore ORDER BY in GROUP_CONCAT of MySQL

---
 database/mysql/mservice/parser/collect_stmt_scopes.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index 307c8ca..91e0a8f 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -269,6 +269,11 @@ func (sc *scopeCollector) collectExprReferences(expr ast.ExprNode, defaultType d
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
 		}
+		if e.Order != nil {
+			for _, i := range e.Order.Items {
+				res = append(res, sc.collectExprReferences(i.Expr, defaultType)...)
+			}
+		}
 	case *ast.WindowFuncExpr:
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
-- 
2.43.0


From 8532c48394232d6e4d23805d6872477f2aa2ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:50 +0000
Subject: [PATCH 36/56] fix: do not ignore DISTINCT ON of PostgreSQL

---
 .../pservice/parser/collect_stmt_scopes.go        | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 161785f..c8dca4c 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -125,6 +125,19 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 	if stmt.Window != nil {
 		sc.errors = append(sc.errors, lib.NewUnsupportedError("not supporting WINDOW"))
 	}
+	for _, d := range stmt.DistinctOn {
+		if sc.isSelectedName(d, stmt.Exprs) {
+			// do nothing as the field at SELECT is already handled
+			continue
+		}
+
+		f, err := sc.createFieldFromExpr(d, dparser.FieldReference)
+		if err == nil {
+			foundFields = append(foundFields, f)
+		} else {
+			sc.errors = append(sc.errors, err)
+		}
+	}
 	if selectNode.OrderBy != nil {
 		for _, o := range selectNode.OrderBy {
 			if sc.isSelectedName(o.Expr, stmt.Exprs) {
@@ -661,7 +674,7 @@ func (sc *scopeCollector) isSchemaSpecifiedTableName(tt *tree.TableName) bool {
 	return true
 }
 
-// isSelectedName returns whether expr is a name of fields at SELECT. ORDER BY prefers the name to columns of tables.
+// isSelectedName returns whether expr is a name of fields at SELECT. ORDER BY and DISTINCT ON prefer the name to columns of tables.
 // e.g.) SELECT u.id AS title FROM users u, todos ORDER BY title; <- `title` is `u.id`
 func (sc *scopeCollector) isSelectedName(expr tree.Expr, fields tree.SelectExprs) bool {
 	e, ok := expr.(*tree.UnresolvedName)
-- 
2.43.0


From b2fd0d5b131897c5f0e36fda5659414dc66b567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:32 +0000
Subject: [PATCH 37/56] fix: do not crash by a window frame of PostgreSQL
 without its end

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index c8dca4c..f433233 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -412,7 +412,9 @@ func (sc *scopeCollector) collectExprReferences(expr tree.Expr, defaultType dpar
 			}
 			if frame := e.WindowDef.Frame; frame != nil {
 				res = append(res, sc.collectExprReferences(frame.Bounds.StartBound.OffsetExpr, defaultType)...)
-				res = append(res, sc.collectExprReferences(frame.Bounds.EndBound.OffsetExpr, defaultType)...)
+				if frame.Bounds.EndBound != nil {
+					res = append(res, sc.collectExprReferences(frame.Bounds.EndBound.OffsetExpr, defaultType)...)
+				}
 			}
 		}
 
-- 
2.43.0


From 450a358fecc1b9b029525239b5a0827589d0973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:05 +0000
Subject: [PATCH 38/56] fix: refuse names of columns at an alias of PostgreSQL
 instead of taking them for other columns

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index f433233..622529d 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -502,6 +502,11 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 	var fields []*dparser.Field
 	switch t := table.(type) {
 	case *tree.AliasedTableExpr:
+		if _, ok := t.Expr.(*tree.RowsFromExpr); !ok && len(t.As.Cols) > 0 {
+			sc.lastError = lib.NewUnsupportedError("renaming columns at AS is not supported")
+			break
+		}
+
 		switch tt := t.Expr.(type) {
 		case *tree.Subquery:
 			info, err := sc.newSelectInfo(tt, "select")
-- 
2.43.0


From 79af7390ae32b67554d70cba12ca830a99a4b793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:20 +0000
Subject: [PATCH 39/56] fix: resolve names of all outer queries from the
 nearest one

---
 .../dservice/dparser/build_table_fields.go    | 44 ++++++++++++-------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 9da30fe..48ca9e0 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -24,7 +24,7 @@ type tableFieldsBuilder struct{}
 
 func buildTableFields(dbTables map[string]*TableSchema, scope *StmtScope) (tableFieldColumns, error) {
 	tfb := &tableFieldsBuilder{}
-	info := newScopeInfo(dbTables, scope, tableOutputCols{})
+	info := newScopeInfo(dbTables, scope, nil)
 	_, tableFields, err := tfb.calculateReferences(info)
 	if err != nil {
 		return nil, err
@@ -45,7 +45,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 
 		t := tableMap[s.Name]
 		if t.IsLateral {
-			subScopeVisibleCols = lo.Assign(info.originalExternalCols, info.getVisibleColumnsBefore(t))
+			subScopeVisibleCols = info.addToExternalCols(info.getVisibleColumnsBefore(t))
 		}
 
 		childInfo := info.createChild(s, subScopeVisibleCols)
@@ -57,7 +57,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 		info.addSubqueryInfo(s.Name, t.AsOrName(), cols, newFieldCols)
 	}
 
-	visibleCols := info.getVisibleColumns()
+	visibleCols := info.addToExternalCols(info.getVisibleColumns())
 	for _, s := range scope.FieldScopes {
 		childInfo := info.createChild(s, visibleCols)
 		_, newFieldColumns, err := tfb.calculateReferences(childInfo)
@@ -115,8 +115,9 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 type scopeInfo struct {
 	dbTables map[string]*TableSchema
 
-	scope                *StmtScope
-	originalExternalCols tableOutputCols
+	scope *StmtScope
+	// originalExternalCols holds columns of outer scopes from the nearest one
+	originalExternalCols []tableOutputCols
 
 	referencingFields tableFieldColumns
 
@@ -125,7 +126,7 @@ type scopeInfo struct {
 	starTables *lib.Set[string]
 }
 
-func newScopeInfo(dbTables map[string]*TableSchema, scope *StmtScope, externalCols tableOutputCols) *scopeInfo {
+func newScopeInfo(dbTables map[string]*TableSchema, scope *StmtScope, externalCols []tableOutputCols) *scopeInfo {
 	referencingColumns := buildReferencingColumns(dbTables, scope.Tables)
 	refTables := newRefTables(referencingColumns, scope.Tables, externalCols)
 
@@ -160,7 +161,7 @@ func buildReferencingColumns(dbTables map[string]*TableSchema, tables []*Table)
 	return res
 }
 
-func (si *scopeInfo) createChild(childScope *StmtScope, externalCols tableOutputCols) *scopeInfo {
+func (si *scopeInfo) createChild(childScope *StmtScope, externalCols []tableOutputCols) *scopeInfo {
 	return newScopeInfo(si.dbTables, childScope, externalCols)
 }
 
@@ -241,6 +242,11 @@ func (si *scopeInfo) listStarReferencingCols(foundCols []*outputCol) ([]*outputC
 	return res, nil
 }
 
+// addToExternalCols returns columns visible from a scope inside the scope having cols
+func (si *scopeInfo) addToExternalCols(cols tableOutputCols) []tableOutputCols {
+	return append([]tableOutputCols{cols}, si.originalExternalCols...)
+}
+
 func (si *scopeInfo) getVisibleColumns() tableOutputCols {
 	return si.getVisibleColumnsBefore(nil)
 }
@@ -262,17 +268,19 @@ func (si *scopeInfo) getVisibleColumnsBefore(table *Table) tableOutputCols {
 
 type refTables struct {
 	internalCols tableOutputCols
-	externalCols tableOutputCols
+	externalCols []tableOutputCols
 
 	asToName        map[string]string
 	subqueryAsNames *lib.Set[string]
 }
 
-func newRefTables(referencingColumns tableOutputCols, tables []*Table, externalCols tableOutputCols) *refTables {
+func newRefTables(referencingColumns tableOutputCols, tables []*Table, externalCols []tableOutputCols) *refTables {
 	asToName := map[string]string{}
 	subqueryAsNames := lib.NewSet[string]()
-	for tName := range externalCols {
-		subqueryAsNames.Add(tName)
+	for _, cols := range externalCols {
+		for tName := range cols {
+			subqueryAsNames.Add(tName)
+		}
 	}
 	for _, t := range tables {
 		asToName[t.AsOrName()] = t.Name
@@ -298,8 +306,12 @@ func (t *refTables) getTableColsFromAsName(asName string) ([]*outputCol, error)
 		if cols, ok := t.internalCols[name]; ok {
 			return cols, nil
 		}
-	} else if cols, ok := t.externalCols[asName]; ok {
-		return cols, nil
+	} else {
+		for _, outerCols := range t.externalCols {
+			if cols, ok := outerCols[asName]; ok {
+				return cols, nil
+			}
+		}
 	}
 
 	return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", asName))
@@ -324,8 +336,10 @@ func (t *refTables) getColumnInfos(colName string) ([]*columnInfo, error) {
 	if cols, ok := t.getColumnInfosFromTableOutputCols(t.internalCols, colName); ok {
 		return cols, nil
 	}
-	if cols, ok := t.getColumnInfosFromTableOutputCols(t.externalCols, colName); ok {
-		return cols, nil
+	for _, outerCols := range t.externalCols {
+		if cols, ok := t.getColumnInfosFromTableOutputCols(outerCols, colName); ok {
+			return cols, nil
+		}
 	}
 
 	if t.subqueryAsNames.Contains(colName) {
-- 
2.43.0


From 9b00652eb39ae4d95dfb3ae60ccd45b914288e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:57 +0000
Subject: [PATCH 40/56] fix: accept the schema of DB_SEARCH_PATH specified in a
 query

---
 database/postgres/pservice/parser/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/index.go b/database/postgres/pservice/parser/index.go
index af722fe..1888405 100644
--- a/database/postgres/pservice/parser/index.go
+++ b/database/postgres/pservice/parser/index.go
@@ -18,7 +18,7 @@ func ListPossibleIndexes(db *postgres.DB, schema string, stmt *parser.Statement)
 		return nil, []error{err}
 	}
 
-	scopes, errs := CollectStmtScopes(stmt, "public")
+	scopes, errs := CollectStmtScopes(stmt, schema)
 	if len(errs) > 0 {
 		return nil, errs
 	}
-- 
2.43.0


From 2dd68d8b97e85bac6c2a3f939e877c4845c954b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:40 +0000
Subject: [PATCH 41/56] fix: collect tables of the schema of DB_SEARCH_PATH
 specified in a query

---
 .../postgres/pservice/parser/collect_table_names.go    | 10 ++++++++--
 database/postgres/pservice/parser/index.go             |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/database/postgres/pservice/parser/collect_table_names.go b/database/postgres/pservice/parser/collect_table_names.go
index 2c12da1..63eea25 100644
--- a/database/postgres/pservice/parser/collect_table_names.go
+++ b/database/postgres/pservice/parser/collect_table_names.go
@@ -9,6 +9,8 @@ import (
 )
 
 type tableCollector struct {
+	targetSchema string
+
 	tables    []*table
 	errors    []error
 	cteTables [][]string
@@ -20,7 +22,11 @@ type table struct {
 }
 
 func CollectTableNames(stmt *parser.Statement) ([]string, []error) {
-	tc := &tableCollector{}
+	return collectTableNames(stmt, "public")
+}
+
+func collectTableNames(stmt *parser.Statement, targetSchema string) ([]string, []error) {
+	tc := &tableCollector{targetSchema: targetSchema}
 	if _, ok := stmt.AST.(*tree.Select); !ok {
 		return nil, []error{lib.NewUnsupportedError("only SELECT query is supported")}
 	}
@@ -99,7 +105,7 @@ func (tc *tableCollector) isCteTable(name string) bool {
 }
 
 func (tc *tableCollector) addTableIfNotDerived(asName tree.Name, tName *tree.TableName) {
-	if (tName.SchemaName != "public" && tName.SchemaName != "") || tName.CatalogName != "" {
+	if (tName.SchemaName.Normalize() != tc.targetSchema && tName.SchemaName != "") || tName.CatalogName != "" {
 		tc.errors = append(tc.errors, lib.NewUnsupportedError(
 			fmt.Sprintf("not supporting query referencing schema or catalog explicitly: %s.%s.%s", tName.CatalogName, tName.SchemaName, tName.TableName),
 		))
diff --git a/database/postgres/pservice/parser/index.go b/database/postgres/pservice/parser/index.go
index 1888405..735264f 100644
--- a/database/postgres/pservice/parser/index.go
+++ b/database/postgres/pservice/parser/index.go
@@ -8,7 +8,7 @@ import (
 )
 
 func ListPossibleIndexes(db *postgres.DB, schema string, stmt *parser.Statement) ([]*dmodel.IndexTarget, []error) {
-	tNames, errs := CollectTableNames(stmt)
+	tNames, errs := collectTableNames(stmt, schema)
 	if len(errs) > 0 {
 		return nil, errs
 	}
-- 
2.43.0


From bd44db142e504efb169af4b962a631a9b4a03991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:54 +0000
Subject: [PATCH 42/56] fix: do not break the report of an examination having
 no index to examine

---
 database/dmodel/examination_result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/dmodel/examination_result.go b/database/dmodel/examination_result.go
index e492522..351a7df 100644
--- a/database/dmodel/examination_result.go
+++ b/database/dmodel/examination_result.go
@@ -15,7 +15,7 @@ func NewExaminationResult(irs []*ExaminationIndexResult, time int64) *Examinatio
 }
 
 func (er *ExaminationResult) ToViewModel() *viewmodel.VmExaminationResult {
-	var virs []*viewmodel.VmExaminationIndexResult
+	virs := []*viewmodel.VmExaminationIndexResult{}
 	for _, ir := range er.IndexResults {
 		virs = append(virs, ir.ToViewModel())
 	}
-- 
2.43.0


From 75aa3baf35d87b6256ace68d557a9b8ce7403869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:03 +0000
Subject: [PATCH 43/56] fix: escape names at -i of the offered command

---
 client/src/lib/ShellText.ts                   | 8 ++++++++
 client/src/models/ExaminationCommandOption.ts | 9 +++------
 client/src/models/IndexTarget.ts              | 3 ++-
 3 files changed, 13 insertions(+), 7 deletions(-)
 create mode 100644 client/src/lib/ShellText.ts

diff --git a/client/src/lib/ShellText.ts b/client/src/lib/ShellText.ts
new file mode 100644
index 0000000..e82fcac
--- /dev/null
+++ b/client/src/lib/ShellText.ts
@@ -0,0 +1,8 @@
+// Returns text which a POSIX shell reads as one word having exactly the same characters
+export const toShellWord = (text: string): string => {
+  if (text.match(/^\w+$/)) {
+    return text;
+  }
+
+  return `"${text.replace(/(["$`\\])/g, "\\$1")}"`;
+};
diff --git a/client/src/models/ExaminationCommandOption.ts b/client/src/models/ExaminationCommandOption.ts
index ca6d702..e45ab38 100644
--- a/client/src/models/ExaminationCommandOption.ts
+++ b/client/src/models/ExaminationCommandOption.ts
@@ -1,3 +1,5 @@
+import { toShellWord } from "@/lib/ShellText";
+
 export class ExaminationCommandOption {
   name: string;
   value: string;
@@ -5,12 +7,7 @@ export class ExaminationCommandOption {
 
   ToCommandString(): string {
     const dash = this.isShort ? "-" : "--";
-    const escapedValue = `${this.value.replace(/(["$`\\])/g, "\\$1")}`;
 
-    if (escapedValue.match(/^\w+$/)) {
-      return `${dash}${this.name} ${escapedValue}`;
-    } else {
-      return `${dash}${this.name} "${escapedValue}"`;
-    }
+    return `${dash}${this.name} ${toShellWord(this.value)}`;
   }
 }
diff --git a/client/src/models/IndexTarget.ts b/client/src/models/IndexTarget.ts
index e6a5f03..0b81661 100644
--- a/client/src/models/IndexTarget.ts
+++ b/client/src/models/IndexTarget.ts
@@ -1,5 +1,6 @@
 import { IndexColumn } from "./IndexColumn";
 import { Type } from "class-transformer";
+import { toShellWord } from "@/lib/ShellText";
 
 export class IndexTarget {
   tableName: string;
@@ -12,7 +13,7 @@ export class IndexTarget {
   }
 
   toGrIndexOption(): string {
-    return `"${this.tableName}:${this.toGrColumnOption()}"`;
+    return toShellWord(`${this.tableName}:${this.toGrColumnOption()}`);
   }
 
   toAlterAddSQL(): string {
-- 
2.43.0


From d7aab5a51e2daedb4477118801b52e12731027c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:10 +0000
Subject: [PATCH 44/56] fix: offer a runnable command for SQL of
 PerformanceInsights

---
 .../pages/dig/performance_insights/util/CommandText.ts    | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/client/src/pages/dig/performance_insights/util/CommandText.ts b/client/src/pages/dig/performance_insights/util/CommandText.ts
index 74f1759..4c436c2 100644
--- a/client/src/pages/dig/performance_insights/util/CommandText.ts
+++ b/client/src/pages/dig/performance_insights/util/CommandText.ts
@@ -1,6 +1,8 @@
+import { toShellWord } from "@/lib/ShellText";
+
 export const buildCommandText = (dbName: string, sql: string): string => {
-  const db = dbName ?? "...";
-  const query = sql ?? "...";
+  const db = toShellWord(dbName ?? "...");
+  const query = toShellWord(sql ?? "...");
 
-  return `DB_DATABASE="${db}" gr db suggest -o "suggest.html" \\\n\t-q "${query}"`;
+  return `DB_DATABASE=${db} gr db suggest mysql -o "suggest.html" \\\n\t-q ${query}`;
 };
-- 
2.43.0


From 49b81a14bc8e26e0ff0659c15f9f113425be976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:18 +0000
Subject: [PATCH 45/56] fix: quote names in SQL offered by the report

---
 client/src/models/HasuraIndexTarget.ts   | 4 +++-
 client/src/models/IndexTarget.ts         | 8 ++++++--
 client/src/models/PostgresIndexTarget.ts | 8 ++++++--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/client/src/models/HasuraIndexTarget.ts b/client/src/models/HasuraIndexTarget.ts
index c8813ef..4cca2a9 100644
--- a/client/src/models/HasuraIndexTarget.ts
+++ b/client/src/models/HasuraIndexTarget.ts
@@ -2,6 +2,8 @@ import { PostgresIndexTarget } from "@/models/PostgresIndexTarget";
 
 export class HasuraIndexTarget extends PostgresIndexTarget {
   toExecutableText(): string {
+    const sql = JSON.stringify(this.toAlterAddSQL()).replace(/'/g, "'\\''");
+
     return `curl --request POST \
   --url "\${HASURA_URL}/v2/query" \
   --header 'Content-Type: application/json' \
@@ -9,7 +11,7 @@ export class HasuraIndexTarget extends PostgresIndexTarget {
   --data '{
 	"type": "run_sql",
 	"args": {
-		"sql": "${this.toAlterAddSQL()}"
+		"sql": ${sql}
 	}
 }'`;
   }
diff --git a/client/src/models/IndexTarget.ts b/client/src/models/IndexTarget.ts
index 0b81661..be3ecfd 100644
--- a/client/src/models/IndexTarget.ts
+++ b/client/src/models/IndexTarget.ts
@@ -17,15 +17,19 @@ export class IndexTarget {
   }
 
   toAlterAddSQL(): string {
-    const columns = this.columns.map((v) => v.name).join(", ");
+    const columns = this.columns.map((v) => this.quote(v.name)).join(", ");
 
-    return `ALTER TABLE ${this.tableName} ADD INDEX (${columns});`;
+    return `ALTER TABLE ${this.quote(this.tableName)} ADD INDEX (${columns});`;
   }
 
   toExecutableText(): string {
     return this.toAlterAddSQL();
   }
 
+  protected quote(name: string): string {
+    return `\`${name.replace(/`/g, "``")}\``;
+  }
+
   private toGrColumnOption(): string {
     return this.columns.map((v) => v.name).join("+");
   }
diff --git a/client/src/models/PostgresIndexTarget.ts b/client/src/models/PostgresIndexTarget.ts
index faf57ec..7fc916f 100644
--- a/client/src/models/PostgresIndexTarget.ts
+++ b/client/src/models/PostgresIndexTarget.ts
@@ -2,8 +2,12 @@ import { IndexTarget } from "@/models/IndexTarget";
 
 export class PostgresIndexTarget extends IndexTarget {
   toAlterAddSQL(): string {
-    const columns = this.columns.map((v) => v.name).join(", ");
+    const columns = this.columns.map((v) => this.quote(v.name)).join(", ");
 
-    return `CREATE INDEX ON ${this.tableName} (${columns});`;
+    return `CREATE INDEX ON ${this.quote(this.tableName)} (${columns});`;
+  }
+
+  protected quote(name: string): string {
+    return `"${name.replace(/"/g, '""')}"`;
   }
 }
-- 
2.43.0


From 29b47c5003e8828e9fac94576b6f9ff2e93448af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:25 +0000
Subject: [PATCH 46/56] fix: show texts in tooltips of charts as they are

---
 client/src/lib/HtmlText.ts                            | 11 +++++++++++
 .../dig/performance_insights/util/LoadTooltip.ts      | 10 ++++++----
 client/src/pages/suggest/hasura/ExplainChart.svelte   | 10 +++++++---
 .../pages/suggest/mysql/ExplainAnalyzeChart.svelte    | 10 +++++++---
 .../pages/suggest/postgres/ExplainAnalyzeChart.svelte | 10 +++++++---
 5 files changed, 38 insertions(+), 13 deletions(-)
 create mode 100644 client/src/lib/HtmlText.ts

diff --git a/client/src/lib/HtmlText.ts b/client/src/lib/HtmlText.ts
new file mode 100644
index 0000000..7d693d1
--- /dev/null
+++ b/client/src/lib/HtmlText.ts
@@ -0,0 +1,11 @@
+const ENTITIES: Record<string, string> = {
+  "&": "&amp;",
+  "<": "&lt;",
+  ">": "&gt;",
+  '"': "&quot;",
+  "'": "&#39;",
+};
+
+export const escapeHtml = (text: string): string => {
+  return text.replace(/[&<>"']/g, (c) => ENTITIES[c]);
+};
diff --git a/client/src/pages/dig/performance_insights/util/LoadTooltip.ts b/client/src/pages/dig/performance_insights/util/LoadTooltip.ts
index c9260a2..0249bef 100644
--- a/client/src/pages/dig/performance_insights/util/LoadTooltip.ts
+++ b/client/src/pages/dig/performance_insights/util/LoadTooltip.ts
@@ -1,3 +1,5 @@
+import { escapeHtml } from "@/lib/HtmlText";
+
 type LoadProp = {
   dbName: string;
   sql: string;
@@ -12,14 +14,14 @@ export const createLoadMaxTooltip = (
   return `
     <div style='max-width: 500px; white-space: normal; max-height: ${maxHeight}px'>
       ${date.toUTCString()}<br />
-      Database: ${dbName}<br />
+      Database: ${escapeHtml(dbName)}<br />
       <div style='margin-bottom: 10px;'>
         db.load.avg:&nbsp;
         <span style='font-weight: bold;'>
           ${loadMaxPercent.toFixed(2)}%
         </span>
       </div>
-      <span style='white-space: break-spaces'>${sql}</span>
+      <span style='white-space: break-spaces'>${escapeHtml(sql)}</span>
     </div>
     `;
 };
@@ -36,14 +38,14 @@ export const createLoadSumTooltip = (
 ): string => {
   return `
     <div style='max-width: 500px; white-space: normal; max-height: ${maxHeight}px'>
-      Database: ${dbName}<br />
+      Database: ${escapeHtml(dbName)}<br />
       <div style='margin-bottom: 10px;'>
         Sum of db.load.avg:&nbsp;
         <span style='font-weight: bold;'>
           ${loadSumPercent.toFixed(2)}%
         </span>
       </div>
-      <span style='white-space: break-spaces'>${sql}</span>
+      <span style='white-space: break-spaces'>${escapeHtml(sql)}</span>
     </div>
     `;
 };
diff --git a/client/src/pages/suggest/hasura/ExplainChart.svelte b/client/src/pages/suggest/hasura/ExplainChart.svelte
index 5169497..28d6a0d 100644
--- a/client/src/pages/suggest/hasura/ExplainChart.svelte
+++ b/client/src/pages/suggest/hasura/ExplainChart.svelte
@@ -1,5 +1,6 @@
 <script lang="ts">
   import { onMount } from "svelte";
+  import { escapeHtml } from "@/lib/HtmlText";
   import { ExplainTree } from "@/components/ExplainTree/ExplainTree";
   import { getHighlightIndex } from "@/contexts/HighlightIndexContext";
   import { ExplainTreeChart } from "@/components/ExplainTree/ExplainTreeChart";
@@ -32,10 +33,11 @@
 
   const createTooltip = (prop: ExplainTreeChartProp<PostgresExplainData>) => {
     const trimmedText = prop.IAnalyzeData.text.trim();
-    const text =
+    const text = escapeHtml(
       trimmedText.length > 50
         ? trimmedText.substring(0, 50) + "..."
-        : trimmedText.substring(0, 50);
+        : trimmedText.substring(0, 50)
+    );
 
     const {
       tableName,
@@ -50,7 +52,9 @@
         <div style='margin-bottom: 5px; font-weight: bold'>${text}</div>
         <div>Table:
           ${
-            tableName ? `<span style='font-weight: bold'>${tableName}` : "-"
+            tableName
+              ? `<span style='font-weight: bold'>${escapeHtml(tableName)}`
+              : "-"
           }</span>
         </div>
         <div>Initial cost (estimated) : ${estimatedInitCost}</div>
diff --git a/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte b/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte
index 31d7b6f..85b519f 100644
--- a/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte
+++ b/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte
@@ -1,5 +1,6 @@
 <script lang="ts">
   import { onMount } from "svelte";
+  import { escapeHtml } from "@/lib/HtmlText";
   import { ExplainTree } from "@/components/ExplainTree/ExplainTree";
   import { getHighlightIndex } from "@/contexts/HighlightIndexContext";
   import { ExplainTreeChart } from "@/components/ExplainTree/ExplainTreeChart";
@@ -31,10 +32,11 @@
 
   const createTooltip = (prop: ExplainTreeChartProp<MysqlAnalyzeData>) => {
     const trimmedText = prop.IAnalyzeData.text.trim();
-    const text =
+    const text = escapeHtml(
       trimmedText.length > 50
         ? trimmedText.substring(0, 50) + "..."
-        : trimmedText.substring(0, 50);
+        : trimmedText.substring(0, 50)
+    );
 
     const initCost = prop.IAnalyzeData.estimatedInitCost;
     const InitCostHtml = initCost
@@ -61,7 +63,9 @@
         <div style='margin-bottom: 5px; font-weight: bold'>${text}</div>
         <div>Table:
           ${
-            tableName ? `<span style='font-weight: bold'>${tableName}` : "-"
+            tableName
+              ? `<span style='font-weight: bold'>${escapeHtml(tableName)}`
+              : "-"
           }</span>
         </div>
         ${InitCostHtml}
diff --git a/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte b/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
index 3f7e094..5a85eb0 100644
--- a/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
+++ b/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
@@ -1,5 +1,6 @@
 <script lang="ts">
   import { onMount } from "svelte";
+  import { escapeHtml } from "@/lib/HtmlText";
   import { ExplainTree } from "@/components/ExplainTree/ExplainTree";
   import { getHighlightIndex } from "@/contexts/HighlightIndexContext";
   import { ExplainTreeChart } from "@/components/ExplainTree/ExplainTreeChart";
@@ -32,10 +33,11 @@
 
   const createTooltip = (prop: ExplainTreeChartProp<PostgresAnalyzeData>) => {
     const trimmedText = prop.IAnalyzeData.text.trim();
-    const text =
+    const text = escapeHtml(
       trimmedText.length > 50
         ? trimmedText.substring(0, 50) + "..."
-        : trimmedText.substring(0, 50);
+        : trimmedText.substring(0, 50)
+    );
 
     const {
       tableName,
@@ -54,7 +56,9 @@
         <div style='margin-bottom: 5px; font-weight: bold'>${text}</div>
         <div>Table:
           ${
-            tableName ? `<span style='font-weight: bold'>${tableName}` : "-"
+            tableName
+              ? `<span style='font-weight: bold'>${escapeHtml(tableName)}`
+              : "-"
           }</span>
         </div>
         <div>Initial cost (estimated) : ${estimatedInitCost}</div>
-- 
2.43.0


From 195b0071c99e6f40b26059f7b8c9accbd44347fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:33 +0000
Subject: [PATCH 47/56] fix: do not break the page by a tokenized SQL having no
 plain SQL

---
 .../pages/dig/performance_insights/util/chart/TokenizedLoad.ts  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/pages/dig/performance_insights/util/chart/TokenizedLoad.ts b/client/src/pages/dig/performance_insights/util/chart/TokenizedLoad.ts
index eb22fb5..ad720e6 100644
--- a/client/src/pages/dig/performance_insights/util/chart/TokenizedLoad.ts
+++ b/client/src/pages/dig/performance_insights/util/chart/TokenizedLoad.ts
@@ -35,7 +35,7 @@ export const pickRawLoads = (
   size: number,
   tokenizedId: string
 ): RawLoadOfSql[] => {
-  const loads = rawLoads[tokenizedId];
+  const loads = rawLoads[tokenizedId] ?? [];
   const sortedLoads = [...loads].sort(
     (l1, l2) => l2.load.loadMax - l1.load.loadMax
   );
-- 
2.43.0


From 056b27c68b3f284ac69377db4bb271c0e01729db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:41 +0000
Subject: [PATCH 48/56] fix: show the actual time of PostgreSQL's node even if
 its first row needs no time

---
 client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte b/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
index 5a85eb0..38444c1 100644
--- a/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
+++ b/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
@@ -67,7 +67,9 @@
         <div>Width (estimated) : ${estimatedWidth}</div>
         <!-- actualTimeAvg seems not the average time of loops for PostgreSQL even doc says so... -->
         <div>Time (actual) :  ${
-          actualTimeFirstRow ? `${actualTimeFirstRow} ~ ${actualTimeAvg}` : "-"
+          actualTimeFirstRow != null
+            ? `${actualTimeFirstRow} ~ ${actualTimeAvg}`
+            : "-"
         }</div>
         <div>Rows returned (actual) : ${actualReturnedRows ?? "-"}</div>
         <div>Loop count (actual) : ${actualLoopCount ?? "-"}</div>
-- 
2.43.0


From db6fa38fe098d3745f459736615460a27bb9b24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:48 +0000
Subject: [PATCH 49/56] fix: do not drop the path of JAEGER_UI_URL at links to
 traces

---
 client/src/pages/dig/jaeger/TracesTable.svelte | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/pages/dig/jaeger/TracesTable.svelte b/client/src/pages/dig/jaeger/TracesTable.svelte
index 03aadf1..68ab6ce 100644
--- a/client/src/pages/dig/jaeger/TracesTable.svelte
+++ b/client/src/pages/dig/jaeger/TracesTable.svelte
@@ -57,7 +57,7 @@
         </td>
         <td
           ><a
-            href={new URL(`/trace/${traceTree.traceId}`, uiPath).href}
+            href={`${uiPath.replace(/\/+$/, "")}/trace/${traceTree.traceId}`}
             target="_blank"
             rel="noopener noreferrer">Open detail</a
           ></td
-- 
2.43.0


From 65510a79663d4e3e93fce73b589b81036d3397ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:18 +0000
Subject: [PATCH 50/56] fix: keep a detail of PostgreSQL's plan having line
 breaks at its node

---
 .../pmodel/explain_analyze_result_node.go     |  3 ++-
 .../pservice/explain_analyze_tree_builder.go  | 27 +++++++++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/database/postgres/pmodel/explain_analyze_result_node.go b/database/postgres/pmodel/explain_analyze_result_node.go
index f390b09..62aba0a 100644
--- a/database/postgres/pmodel/explain_analyze_result_node.go
+++ b/database/postgres/pmodel/explain_analyze_result_node.go
@@ -104,9 +104,10 @@ func ParseExplainAnalyzeResultLineNode(lines []string) (int, *ExplainAnalyzeResu
 }
 
 func extractTableFromExplainAnalyzeResultLine(lines []string) string {
+	mLine := getMetricLine(lines)
 	for _, line := range lines {
 		// a table is at the line of the node only. " on " in the other lines is a part of conditions
-		if metricLineReg.MatchString(line) {
+		if mLine != "" && line == mLine {
 			m := onReg.FindStringSubmatch(line)
 			if m != nil {
 				return m[1]
diff --git a/database/postgres/pservice/explain_analyze_tree_builder.go b/database/postgres/pservice/explain_analyze_tree_builder.go
index 53b3bcf..97c471d 100644
--- a/database/postgres/pservice/explain_analyze_tree_builder.go
+++ b/database/postgres/pservice/explain_analyze_tree_builder.go
@@ -73,7 +73,14 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 	var nodeLines []string
 	prevLineType := analyzeLinePlanName
 	summaryStartLine := 0
+	continuedUntil := 0
 	for i, line := range explainLines {
+		if i < continuedUntil {
+			nodeLines = append(nodeLines, line)
+			continue
+		}
+		continuedUntil = erb.findQuotedTextEnd(explainLines, i)
+
 		if summaryReg.MatchString(line) {
 			summaryStartLine = i
 			break
@@ -126,3 +133,23 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 
 	return lineNodes, sLine
 }
+
+// findQuotedTextEnd returns the index following the last line of the row starting at "start".
+// PostgreSQL writes line breaks within literals and quoted names as they are, so a row can have more than one line.
+func (erb *ExplainAnalyzeTreeBuilder) findQuotedTextEnd(explainLines []string, start int) int {
+	var quote rune
+	for i := start; i < len(explainLines); i++ {
+		for _, c := range explainLines[i] {
+			if quote == 0 && (c == '\'' || c == '"') {
+				quote = c
+			} else if quote == c {
+				quote = 0
+			}
+		}
+		if quote == 0 {
+			return i + 1
+		}
+	}
+
+	return start + 1
+}
-- 
2.43.0


From f43185d0a50f50b9b6ced2357db4017fede6f221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:51 +0000
Subject: [PATCH 51/56] fix: do not send the admin secret of Hasura to another
 host by a redirect

---
 infra/hasura/client.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/infra/hasura/client.go b/infra/hasura/client.go
index 0078d7d..49058bb 100644
--- a/infra/hasura/client.go
+++ b/infra/hasura/client.go
@@ -18,8 +18,9 @@ const (
 )
 
 type Client struct {
-	baseURL *url.URL
-	headers map[string]string
+	baseURL    *url.URL
+	headers    map[string]string
+	httpClient *http.Client
 }
 
 func NewClient(cfg *Config) *Client {
@@ -28,9 +29,21 @@ func NewClient(cfg *Config) *Client {
 		headers: map[string]string{
 			"x-hasura-admin-secret": cfg.AdminSecret,
 		},
+		httpClient: &http.Client{CheckRedirect: refuseOtherHost},
 	}
 }
 
+// refuseOtherHost refuses a redirect to another host because http.Client would send the admin secret to it
+func refuseOtherHost(req *http.Request, via []*http.Request) error {
+	if req.URL.Hostname() != via[0].URL.Hostname() {
+		return errors.Errorf("redirected to another host: %s", req.URL.Host)
+	}
+	if len(via) >= 10 {
+		return errors.New("stopped after 10 redirects")
+	}
+	return nil
+}
+
 func (c *Client) QueryWithoutResult(query string, variables map[string]interface{}) error {
 	body := map[string]interface{}{
 		"query":     query,
@@ -143,7 +156,7 @@ func (c *Client) post(pathname string, body interface{}) ([]byte, error) {
 	for k, v := range c.headers {
 		req.Header.Add(k, v)
 	}
-	res, err := http.DefaultClient.Do(req)
+	res, err := c.httpClient.Do(req)
 	if err != nil {
 		return nil, errors.Wrap(err, "failed to execute http request to hasura")
 	}
-- 
2.43.0


From d3f4235ad8d4b9a7d8c57b417e15facf3e65d1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:00 +0000
Subject: [PATCH 52/56] fix: tell the right place of the report when its path
 is absolute

---
 cmd/util/log.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/util/log.go b/cmd/util/log.go
index 977261c..e1e7cf2 100644
--- a/cmd/util/log.go
+++ b/cmd/util/log.go
@@ -4,8 +4,7 @@ import (
 	"github.com/mrasu/GravityR/database/dmodel"
 	"github.com/rs/zerolog"
 	"github.com/rs/zerolog/log"
-	"os"
-	"path"
+	"path/filepath"
 )
 
 func LogError(err error) {
@@ -17,9 +16,9 @@ func LogError(err error) {
 }
 
 func LogResultOutputPath(outputPath string) {
-	wd, err := os.Getwd()
+	absPath, err := filepath.Abs(outputPath)
 	if err == nil {
-		log.Info().Msg("Result html is at: " + path.Join(wd, outputPath))
+		log.Info().Msg("Result html is at: " + absPath)
 	}
 }
 
-- 
2.43.0


From 1cf56e24365700c6ee7cc626cdc70acdfc3c973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:04 +0000
Subject: [PATCH 53/56] fix: do not show the password of HASURA_URL in the log

---
 lib/http_transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/http_transport.go b/lib/http_transport.go
index c155699..9c500f6 100644
--- a/lib/http_transport.go
+++ b/lib/http_transport.go
@@ -15,7 +15,7 @@ func NewHttpTransport() *HttpTransport {
 }
 
 func (ht *HttpTransport) RoundTrip(req *http.Request) (*http.Response, error) {
-	log.Printf("[http] --> %s %s", req.Method, req.URL)
+	log.Printf("[http] --> %s %s", req.Method, req.URL.Redacted())
 	startTime := time.Now()
 
 	resp, err := ht.Transport.RoundTrip(req)
-- 
2.43.0


From e3a5189de705ca5dc858df5f103515a1e619a974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:12 +0000
Subject: [PATCH 54/56] fix: refuse numbers which cannot be sent to Jaeger

---
 cmd/app/dig/jaeger.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/app/dig/jaeger.go b/cmd/app/dig/jaeger.go
index b2410ca..7f278cf 100644
--- a/cmd/app/dig/jaeger.go
+++ b/cmd/app/dig/jaeger.go
@@ -13,6 +13,7 @@ import (
 	"github.com/rs/zerolog/log"
 	"github.com/samber/lo"
 	"github.com/spf13/cobra"
+	"math"
 	"time"
 )
 
@@ -60,6 +61,13 @@ type jaegerRunner struct {
 }
 
 func (jr *jaegerRunner) prepare() error {
+	if jr.count > math.MaxInt32 || jr.count < math.MinInt32 {
+		return errors.Errorf("too large count: %d", jr.count)
+	}
+	if d := int64(jr.durationMilli); d > math.MaxInt64/int64(time.Millisecond) || d < math.MinInt64/int64(time.Millisecond) {
+		return errors.Errorf("too large min-duration-millisecond: %d", jr.durationMilli)
+	}
+
 	now := time.Now()
 
 	if jr.startStr != "" {
-- 
2.43.0


From 10f6d72712f92cf7209ae335c8f05f242f5d76d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:20 +0000
Subject: [PATCH 55/56] fix: do not ignore tables in OFFSET and ORDER BY of
 windows and aggregates of PostgreSQL

---
 database/postgres/pservice/ast/ast_walker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/database/postgres/pservice/ast/ast_walker.go b/database/postgres/pservice/ast/ast_walker.go
index a07fe32..b6bcf48 100644
--- a/database/postgres/pservice/ast/ast_walker.go
+++ b/database/postgres/pservice/ast/ast_walker.go
@@ -129,7 +129,7 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 				if node.WindowDef != nil {
 					walk(node.WindowDef)
 				}
-				walk(node.Exprs, node.Filter)
+				walk(node.Exprs, node.Filter, node.OrderBy)
 			case *tree.IndexTableDef:
 			case *tree.JoinTableExpr:
 				walk(node.Left, node.Right, node.Cond)
@@ -166,7 +166,7 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 				}
 				walk(node.Select)
 			case *tree.Limit:
-				walk(node.Count)
+				walk(node.Count, node.Offset)
 			case *tree.SelectClause:
 				walk(node.Exprs)
 				if node.Where != nil {
@@ -226,7 +226,7 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 					walk(windowDef)
 				}
 			case *tree.WindowDef:
-				walk(node.Partitions)
+				walk(node.Partitions, node.OrderBy)
 				if node.Frame != nil {
 					walk(node.Frame)
 				}
-- 
2.43.0


From 0dff3c80e952aec06e6d735a98fade198ee4c136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:11 +0000
Subject: [PATCH 56/56] fix: do not ignore a column assigned to a variable of
 MySQL

---
 database/mysql/mservice/parser/collect_stmt_scopes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index 91e0a8f..3847634 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -244,7 +244,8 @@ func (sc *scopeCollector) collectExprReferences(expr ast.ExprNode, defaultType d
 	case *ast.ValuesExpr:
 		sc.lastError = lib.NewInvalidAstError("VALUES is not expected")
 	case *ast.VariableExpr:
-		// do nothing as variable doesn't relate to table's column
+		// variable doesn't relate to table's column but the value assigned to it does
+		res = append(res, sc.collectExprReferences(e.Value, defaultType)...)
 	case *ast.MaxValueExpr:
 		// MAXVALUE appears in table definition for partition
 		sc.lastError = lib.NewInvalidAstError("MAXVALUE is not expected")
-- 
2.43.0

