From d57e059c1938eeed905c77861c1991f30fcb4349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:57 +0000
Subject: [PATCH 01/48] fix: keep every table of a comma-separated FROM in
 PostgreSQL analysis

Each item of FROM overwrote the tables found before, so 'FROM a, b' failed
with 'no table found'.
---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 409ecb2..50c8fac 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -92,7 +92,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 			sc.errors = append(sc.errors, err)
 		}
 
-		scope.Tables = tables
+		scope.Tables = append(scope.Tables, tables...)
 		foundFields = append(foundFields, fields...)
 	}
 	if stmt.Where != nil {
-- 
2.43.0


From a60e8dcd6284f0b7407523dbc6b083362c1d446c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:01 +0000
Subject: [PATCH 02/48] fix: do not fold the case of quoted PostgreSQL
 identifiers

The parser has already lower-cased unquoted identifiers. Folding again made
tables, aliases and USING columns with upper-case letters unknown.
---
 .../postgres/pservice/parser/collect_stmt_scopes.go    | 10 +++++-----
 .../postgres/pservice/parser/collect_table_names.go    |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 50c8fac..07c10fe 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -455,7 +455,7 @@ func (sc *scopeCollector) collectExprReferences(expr tree.Expr, defaultType dpar
 		if sc.isSchemaSpecified2(e.TableName, 1) {
 			sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
 		} else {
-			return []*dparser.FieldColumn{{Table: e.TableName.Parts[0], Name: e.ColumnName.Normalize()}}
+			return []*dparser.FieldColumn{{Table: e.TableName.Parts[0], Name: string(e.ColumnName)}}
 		}
 	default:
 		t := reflect.TypeOf(e).Name()
@@ -495,7 +495,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 
 			// ignore the content of subquery as it will be in different ScopeStmt
 			tables = []*dparser.Table{{
-				AsName:    t.As.Alias.Normalize(),
+				AsName:    string(t.As.Alias),
 				Name:      name,
 				IsLateral: t.Lateral,
 			}}
@@ -503,7 +503,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 			if sc.isSchemaSpecified2(tt, 1) {
 				sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
 			} else {
-				tables = []*dparser.Table{{AsName: t.As.Alias.Normalize(), Name: tt.Parts[0]}}
+				tables = []*dparser.Table{{AsName: string(t.As.Alias), Name: tt.Parts[0]}}
 			}
 		case *tree.StatementSource:
 			sc.lastError = lib.NewUnsupportedError("referencing source like [table] is not supported")
@@ -522,7 +522,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 			if sc.isSchemaSpecifiedTableName(tt) {
 				sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
 			} else {
-				tables = []*dparser.Table{{AsName: t.As.Alias.Normalize(), Name: tt.Table()}}
+				tables = []*dparser.Table{{AsName: string(t.As.Alias), Name: tt.Table()}}
 			}
 		case *tree.TableRef:
 			sc.lastError = lib.NewUnsupportedError("numeric table reference is not supported")
@@ -569,7 +569,7 @@ func (sc *scopeCollector) collectJoinReferences(j *tree.JoinTableExpr) ([]*dpars
 		case *tree.UsingJoinCond:
 			// todo: not supporting the same column name?
 			for _, col := range c.Cols {
-				fields = append(fields, &dparser.Field{Columns: []*dparser.FieldColumn{{Table: "", Name: col.Normalize(), Type: dparser.FieldCondition}}})
+				fields = append(fields, &dparser.Field{Columns: []*dparser.FieldColumn{{Table: "", Name: string(col), Type: dparser.FieldCondition}}})
 			}
 		default:
 			sc.lastError = lib.NewUnsupportedError(
diff --git a/database/postgres/pservice/parser/collect_table_names.go b/database/postgres/pservice/parser/collect_table_names.go
index 2c12da1..f471d11 100644
--- a/database/postgres/pservice/parser/collect_table_names.go
+++ b/database/postgres/pservice/parser/collect_table_names.go
@@ -40,7 +40,7 @@ func CollectTableNames(stmt *parser.Statement) ([]string, []error) {
 func (tc *tableCollector) getTableNames() []string {
 	s := lib.NewSet[string]()
 	for _, t := range tc.tables {
-		s.Add(t.name.Normalize())
+		s.Add(string(t.name))
 	}
 
 	return s.Values()
@@ -74,7 +74,7 @@ func (tc *tableCollector) pushCteTables(s *tree.Select) {
 
 	var ts []string
 	for _, cte := range s.With.CTEList {
-		ts = append(ts, cte.Name.Alias.Normalize())
+		ts = append(ts, string(cte.Name.Alias))
 	}
 	tc.cteTables = append(tc.cteTables, ts)
 }
@@ -105,7 +105,7 @@ func (tc *tableCollector) addTableIfNotDerived(asName tree.Name, tName *tree.Tab
 		))
 		return
 	}
-	if !tc.isCteTable(tName.TableName.Normalize()) {
+	if !tc.isCteTable(string(tName.TableName)) {
 		tc.tables = append(tc.tables, &table{
 			name:  tName.TableName,
 			alias: asName,
-- 
2.43.0


From 40a2076a0311220492777d40bf81f57ebfa1631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:05 +0000
Subject: [PATCH 03/48] fix: match the whole text of an index given by -i

Text around a line break was dropped silently, e.g. 'users:name<LF>...'.
---
 database/dmodel/index_target.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/dmodel/index_target.go b/database/dmodel/index_target.go
index 7bee1eb..328ccc4 100644
--- a/database/dmodel/index_target.go
+++ b/database/dmodel/index_target.go
@@ -15,7 +15,7 @@ type IndexTarget struct {
 	Columns   []*IndexColumn
 }
 
-var indexTargetReg = regexp.MustCompile(`(.+?):((.+?(\+)?)+)`)
+var indexTargetReg = regexp.MustCompile(`\A(.+?):((.+?(\+)?)+)\z`)
 var wordOnlyReg = regexp.MustCompile(`\A\w+\z`)
 
 const indexTargetColumnSeparator = "+"
-- 
2.43.0


From 69abf55a9b6a47ca4dd2ddd608818642e39fd69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:09 +0000
Subject: [PATCH 04/48] fix: compare MySQL column names case-insensitively

Names in a query are lower-cased but names from information_schema were not,
so a query using a column such as userId failed with 'no column found'.
---
 database/mysql/mservice/parser/collect_table_schemas.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database/mysql/mservice/parser/collect_table_schemas.go b/database/mysql/mservice/parser/collect_table_schemas.go
index bc87b80..3f45470 100644
--- a/database/mysql/mservice/parser/collect_table_schemas.go
+++ b/database/mysql/mservice/parser/collect_table_schemas.go
@@ -6,6 +6,7 @@ import (
 	"github.com/mrasu/GravityR/infra/mysql"
 	"github.com/mrasu/GravityR/lib"
 	"github.com/rs/zerolog/log"
+	"strings"
 )
 
 func CollectTableSchemas(db *mysql.DB, dbName string, tables []string) ([]*dparser.TableSchema, error) {
@@ -15,7 +16,8 @@ func CollectTableSchemas(db *mysql.DB, dbName string, tables []string) ([]*dpars
 	}
 
 	schemas := dparser.CreateTableSchemas(tables, cols, func(c *mysql.ColumnInfo) (string, string, bool) {
-		return c.TableName, c.ColumnName, c.ColumnKey == "PRI"
+		// the analysis of a query uses lower-cased names because MySQL ignores the case of column names
+		return c.TableName, strings.ToLower(c.ColumnName), c.ColumnKey == "PRI"
 	})
 
 	for i, table := range tables {
-- 
2.43.0


From 5c424874daacadf3fe2151ce9f3c7b13b779b640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:26 +0000
Subject: [PATCH 05/48] fix: do not look up existing indexes when there is no
 candidate

Asking for the indexes of no table made an invalid query, so a query without
any candidate (e.g. SELECT COUNT(*) FROM users) failed.
---
 database/dservice/existing_index_remover.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/database/dservice/existing_index_remover.go b/database/dservice/existing_index_remover.go
index 42c7da6..7020413 100644
--- a/database/dservice/existing_index_remover.go
+++ b/database/dservice/existing_index_remover.go
@@ -24,6 +24,9 @@ func NewExistingIndexRemover(idxGetter IndexGetter, dbName string, its []*dmodel
 }
 
 func (r *ExistingIndexRemover) Remove() ([]*dmodel.IndexTarget, error) {
+	if len(r.idxTargets) == 0 {
+		return nil, nil
+	}
 	idxTargets := lo.Uniq(r.idxTargets)
 
 	tNames := lo.Map(idxTargets, func(it *dmodel.IndexTarget, _ int) string { return it.TableName })
-- 
2.43.0


From 68b965cee980c34dde8d6d60ee57a0ccf02c6b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:35 +0000
Subject: [PATCH 06/48] fix: do not resolve column names to the output of
 subqueries used as expressions

---
 database/dservice/dparser/build_table_fields.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 2be983a..45d537a 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -59,12 +59,13 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 	visibleCols := info.getVisibleColumns()
 	for _, s := range scope.FieldScopes {
 		childInfo := info.createChild(s, visibleCols)
-		cols, newFieldColumns, err := tfb.calculateReferences(childInfo)
+		_, newFieldColumns, err := tfb.calculateReferences(childInfo)
 		if err != nil {
 			return nil, nil, err
 		}
 
-		info.addSubqueryInfo(s.Name, s.Name, cols, newFieldColumns)
+		// the columns of a subquery used as an expression are not visible from outside
+		info.addReferencingFields(newFieldColumns)
 	}
 
 	var outputCols []*outputCol
-- 
2.43.0


From 86a684fe88260f19b111666bed86e152036dc922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:57 +0000
Subject: [PATCH 07/48] fix: do not expose a column only used in a subquery's
 condition as its output

---
 database/dservice/dparser/build_table_fields.go |  2 +-
 database/dservice/dparser/field.go              | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 45d537a..594b0e5 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -92,7 +92,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 		}
 
 		n := f.Name()
-		if n != "" {
+		if n != "" && !f.isCondition() {
 			outputCols = append(outputCols, &outputCol{name: n, referencingColumns: allColInfos})
 		}
 	}
diff --git a/database/dservice/dparser/field.go b/database/dservice/dparser/field.go
index 176faab..1c9732b 100644
--- a/database/dservice/dparser/field.go
+++ b/database/dservice/dparser/field.go
@@ -14,3 +14,13 @@ func (f *Field) Name() string {
 
 	return ""
 }
+
+func (f *Field) isCondition() bool {
+	for _, c := range f.Columns {
+		if c.Type == FieldCondition {
+			return true
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From 6092502e79498d9f6feed2727eafdc3543c19eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:32 +0000
Subject: [PATCH 08/48] fix: resolve a subquery's output which references no
 column

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 07c10fe..b6a6897 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -154,7 +154,8 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 	}
 
 	for _, f := range foundFields {
-		if len(f.Columns) > 0 {
+		// a named field can be referenced from outside even if it references no column. e.g.) COUNT(*) AS cnt
+		if len(f.Columns) > 0 || f.AsName != "" {
 			scope.Fields = append(scope.Fields, f)
 		}
 	}
-- 
2.43.0


From b389fce82a1a27b40c0cc84e850aa18144b0607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:42 +0000
Subject: [PATCH 09/48] fix: let a nested subquery reference tables of any
 outer query

---
 database/dservice/dparser/build_table_fields.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 594b0e5..e97954a 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -56,7 +56,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 		info.addSubqueryInfo(s.Name, t.AsOrName(), cols, newFieldCols)
 	}
 
-	visibleCols := info.getVisibleColumns()
+	visibleCols := lo.Assign(info.originalExternalCols, info.getVisibleColumns())
 	for _, s := range scope.FieldScopes {
 		childInfo := info.createChild(s, visibleCols)
 		_, newFieldColumns, err := tfb.calculateReferences(childInfo)
-- 
2.43.0


From 243824b0a6434ed75cf457d37d5115d15973ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:21 +0000
Subject: [PATCH 10/48] fix: attribute the columns of JOIN ... USING to all
 joined tables having them

---
 .../dservice/dparser/build_table_fields.go    | 27 +++++++++++++++++--
 database/dservice/dparser/field_column.go     |  7 +++--
 .../mservice/parser/collect_stmt_scopes.go    |  7 +++++
 database/postgres/pservice/ast/ast_walker.go  |  1 +
 .../pservice/parser/collect_stmt_scopes.go    |  5 ++--
 5 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index e97954a..a17cb97 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -173,6 +173,10 @@ func (si *scopeInfo) getColumnReferenceColumnInfos(c *FieldColumn) ([]*columnInf
 		return nil, nil
 	}
 
+	if len(c.UsingTables) > 0 {
+		return si.refTables.getUsingColumnInfos(c), nil
+	}
+
 	if c.Table == "" {
 		cols, err := si.refTables.getColumnInfos(c.Name)
 		if err != nil {
@@ -332,14 +336,33 @@ func (t *refTables) getColumnInfos(colName string) ([]*columnInfo, error) {
 	return nil, lib.NewInvalidAstError(fmt.Sprintf("no column found for %s", colName))
 }
 
+// getUsingColumnInfos lists the columns merged by JOIN ... USING
+func (t *refTables) getUsingColumnInfos(c *FieldColumn) []*columnInfo {
+	outputs := tableOutputCols{}
+	for _, asName := range c.UsingTables {
+		if cols, err := t.getTableColsFromAsName(asName); err == nil {
+			outputs[asName] = cols
+		}
+	}
+
+	cols, _ := t.getColumnInfosFromTableOutputCols(outputs, c.Name)
+	return cols
+}
+
+// getColumnInfosFromTableOutputCols lists columns of every table having the name
+// because a name without table can be of several tables when JOIN ... USING is used.
 func (t *refTables) getColumnInfosFromTableOutputCols(tableOutputs tableOutputCols, colName string) ([]*columnInfo, bool) {
+	var res []*columnInfo
+	found := false
 	for _, fCols := range tableOutputs {
 		for _, fc := range fCols {
 			if colName == fc.name {
-				return fc.referencingColumns, true
+				res = append(res, fc.referencingColumns...)
+				found = true
+				break
 			}
 		}
 	}
 
-	return nil, false
+	return res, found
 }
diff --git a/database/dservice/dparser/field_column.go b/database/dservice/dparser/field_column.go
index cacbbe7..4457ac3 100644
--- a/database/dservice/dparser/field_column.go
+++ b/database/dservice/dparser/field_column.go
@@ -5,6 +5,9 @@ type FieldColumn struct {
 	ReferenceName string
 
 	Table string
-	Name  string
-	Type  FieldType
+	// UsingTables is set instead of Table when the column is of several tables, like JOIN ... USING (name)
+	UsingTables []string
+
+	Name string
+	Type FieldType
 }
diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index fdbe560..f1a1a3d 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -6,6 +6,7 @@ import (
 	"github.com/mrasu/GravityR/lib"
 	"github.com/pingcap/tidb/parser/ast"
 	driver "github.com/pingcap/tidb/types/parser_driver"
+	"github.com/samber/lo"
 	"reflect"
 )
 
@@ -362,6 +363,12 @@ func (sc *scopeCollector) collectJoinReferences(j *ast.Join) ([]*dparser.Table,
 	if j.On != nil {
 		fields = append(fields, &dparser.Field{Columns: sc.collectExprReferences(j.On.Expr, dparser.FieldCondition)})
 	}
+	if len(j.Using) > 0 {
+		tNames := lo.Map(tables, func(t *dparser.Table, _ int) string { return t.AsOrName() })
+		for _, col := range j.Using {
+			fields = append(fields, &dparser.Field{Columns: []*dparser.FieldColumn{{UsingTables: tNames, Name: col.Name.L, Type: dparser.FieldCondition}}})
+		}
+	}
 
 	return tables, fields
 }
diff --git a/database/postgres/pservice/ast/ast_walker.go b/database/postgres/pservice/ast/ast_walker.go
index a07fe32..27fd65f 100644
--- a/database/postgres/pservice/ast/ast_walker.go
+++ b/database/postgres/pservice/ast/ast_walker.go
@@ -138,6 +138,7 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 			case *tree.NumVal:
 			case *tree.OnJoinCond:
 				walk(node.Expr)
+			case *tree.UsingJoinCond:
 			case *tree.Order:
 				walk(node.Expr, node.Table)
 			case tree.OrderBy:
diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index b6a6897..3741098 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -7,6 +7,7 @@ import (
 	"github.com/mrasu/GravityR/database/dservice/dparser"
 	"github.com/mrasu/GravityR/database/postgres/pservice/ast"
 	"github.com/mrasu/GravityR/lib"
+	"github.com/samber/lo"
 	"reflect"
 )
 
@@ -568,9 +569,9 @@ func (sc *scopeCollector) collectJoinReferences(j *tree.JoinTableExpr) ([]*dpars
 		case *tree.OnJoinCond:
 			fields = append(fields, &dparser.Field{Columns: sc.collectExprReferences(c.Expr, dparser.FieldCondition)})
 		case *tree.UsingJoinCond:
-			// todo: not supporting the same column name?
+			tNames := lo.Map(tables, func(t *dparser.Table, _ int) string { return t.AsOrName() })
 			for _, col := range c.Cols {
-				fields = append(fields, &dparser.Field{Columns: []*dparser.FieldColumn{{Table: "", Name: string(col), Type: dparser.FieldCondition}}})
+				fields = append(fields, &dparser.Field{Columns: []*dparser.FieldColumn{{UsingTables: tNames, Name: string(col), Type: dparser.FieldCondition}}})
 			}
 		default:
 			sc.lastError = lib.NewUnsupportedError(
-- 
2.43.0


From 04ead9771ead7885bda75d8b57e79a5b7bd6000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:21 +0000
Subject: [PATCH 11/48] fix: keep the last node of a PostgreSQL plan which has
 no summary

---
 .../pservice/explain_analyze_tree_builder.go         | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/database/postgres/pservice/explain_analyze_tree_builder.go b/database/postgres/pservice/explain_analyze_tree_builder.go
index 89dddf4..2fb97a5 100644
--- a/database/postgres/pservice/explain_analyze_tree_builder.go
+++ b/database/postgres/pservice/explain_analyze_tree_builder.go
@@ -72,12 +72,9 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 	var lineNodes [][]string
 	var nodeLines []string
 	prevLineType := analyzeLinePlanName
-	summaryStartLine := 0
+	summaryStartLine := len(explainLines)
 	for i, line := range explainLines {
 		if summaryReg.MatchString(line) {
-			if len(nodeLines) > 0 {
-				lineNodes = append(lineNodes, nodeLines)
-			}
 			summaryStartLine = i
 			break
 		}
@@ -119,10 +116,9 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 		}
 	}
 
-	sLine := ""
-	if summaryStartLine > 0 {
-		sLine = strings.Join(explainLines[summaryStartLine:], "\n")
+	if len(nodeLines) > 0 {
+		lineNodes = append(lineNodes, nodeLines)
 	}
 
-	return lineNodes, sLine
+	return lineNodes, strings.Join(explainLines[summaryStartLine:], "\n")
 }
-- 
2.43.0


From a500b89cc75ea13338314f2a8747a7b3646270be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:20 +0000
Subject: [PATCH 12/48] fix: do not read tables and numbers of a plan from
 string literals

---
 database/mysql/mmodel/explain_analyze_result_line.go | 12 ++++++++----
 .../postgres/pmodel/explain_analyze_result_node.go   |  4 ++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/database/mysql/mmodel/explain_analyze_result_line.go b/database/mysql/mmodel/explain_analyze_result_line.go
index 542724b..09f43b1 100644
--- a/database/mysql/mmodel/explain_analyze_result_line.go
+++ b/database/mysql/mmodel/explain_analyze_result_line.go
@@ -28,6 +28,7 @@ type ExplainAnalyzeResultLine struct {
 }
 
 var prefixIndentReg = regexp.MustCompile(`^\s*`)
+var literalReg = regexp.MustCompile(`'(?:[^'\\]|\\.|'')*'`)
 var onReg = regexp.MustCompile(` on (\w+)`)
 var filterReg = regexp.MustCompile(` Filter: \((\w+)\.`)
 var sortReg = regexp.MustCompile(` Sort: (\w+)\.`)
@@ -36,13 +37,16 @@ var analyzeEstimationReg = regexp.MustCompile(`\(cost=([\d.]+?)(\.\.([\d.]+?))?(
 var analyzeActualReg = regexp.MustCompile(`\(actual time=([\d.]+?)\.\.([\d.]+?) rows=(\d+) loops=(\d+)\)`)
 
 func ParseExplainAnalyzeResultLine(line string) (int, *ExplainAnalyzeResultLine, error) {
+	// text inside a literal is not a part of the plan
+	planLine := literalReg.ReplaceAllString(line, "''")
+
 	resLine := &ExplainAnalyzeResultLine{
 		Text:      line,
-		TableName: extractTableFromExplainAnalyzeResultLine(line),
+		TableName: extractTableFromExplainAnalyzeResultLine(planLine),
 	}
 
 	// c.f.) https://github.com/mysql/mysql-server/blob/8d8c986e5716e38cb776b627a8eee9e92241b4ce/sql/join_optimizer/explain_access_path.cc#L1076
-	em := analyzeEstimationReg.FindStringSubmatch(line)
+	em := analyzeEstimationReg.FindStringSubmatch(planLine)
 	if em != nil {
 		if em[2] == "" {
 			cost, err := strconv.ParseFloat(em[1], 64)
@@ -73,7 +77,7 @@ func ParseExplainAnalyzeResultLine(line string) (int, *ExplainAnalyzeResultLine,
 	}
 
 	// c.f.) https://github.com/mysql/mysql-server/blob/6846e6b2f72931991cc9fd589dc9946ea2ab58c9/sql/iterators/timing_iterator.h#L159
-	am := analyzeActualReg.FindStringSubmatch(line)
+	am := analyzeActualReg.FindStringSubmatch(planLine)
 	if am != nil {
 		timeFirst, err := strconv.ParseFloat(am[1], 64)
 		if err != nil {
@@ -155,7 +159,7 @@ var titleReg = regexp.MustCompile(`->\s+(.+)\s+\(`)
 var titleWordReg = regexp.MustCompile(`\w+`)
 
 func (l *ExplainAnalyzeResultLine) Title() string {
-	m := titleReg.FindStringSubmatch(l.Text)
+	m := titleReg.FindStringSubmatch(literalReg.ReplaceAllString(l.Text, "''"))
 	if m == nil {
 		wm := titleWordReg.FindStringSubmatch(l.Text)
 		if wm == nil {
diff --git a/database/postgres/pmodel/explain_analyze_result_node.go b/database/postgres/pmodel/explain_analyze_result_node.go
index e7b851f..92ffe72 100644
--- a/database/postgres/pmodel/explain_analyze_result_node.go
+++ b/database/postgres/pmodel/explain_analyze_result_node.go
@@ -28,6 +28,7 @@ type ExplainAnalyzeResultNode struct {
 }
 
 var prefixSpaceReg = regexp.MustCompile(`^\s*`)
+var literalReg = regexp.MustCompile(`'(?:[^']|'')*'`)
 var onReg = regexp.MustCompile(` on (\w+)`)
 var onWithNamespaceReg = regexp.MustCompile(` on "?([\w.]+)"?`)
 var keyReg = regexp.MustCompile(` Key: (\w+)\.`)
@@ -104,6 +105,9 @@ func ParseExplainAnalyzeResultLineNode(lines []string) (int, *ExplainAnalyzeResu
 
 func extractTableFromExplainAnalyzeResultLine(lines []string) string {
 	for _, line := range lines {
+		// text inside a literal is not a table
+		line = literalReg.ReplaceAllString(line, "''")
+
 		m := onReg.FindStringSubmatch(line)
 		if m != nil {
 			return m[1]
-- 
2.43.0


From 97e5d397f8d2a82db3eaabebcc8ddaab9759d5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:46 +0000
Subject: [PATCH 13/48] fix: accept span attributes without a value

OpenTelemetry allows an attribute whose value is empty; converting such a
span panicked and aborted the whole command.
---
 otel/jaeger/v1_converter.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/otel/jaeger/v1_converter.go b/otel/jaeger/v1_converter.go
index 05a039b..0d2e64d 100644
--- a/otel/jaeger/v1_converter.go
+++ b/otel/jaeger/v1_converter.go
@@ -85,7 +85,10 @@ func (c *v1Converter) toAnyValue(v *v1.AnyValue) *omodel.AnyValue {
 }
 
 func (c *v1Converter) toAnyValueData(v *v1.AnyValue) omodel.AnyValueDatum {
-	switch vv := v.Value.(type) {
+	switch vv := v.GetValue().(type) {
+	case nil:
+		// OpenTelemetry allows an empty value
+		return nil
 	case *v1.AnyValue_StringValue:
 		return &omodel.AnyValueString{StringValue: vv.StringValue}
 	case *v1.AnyValue_BoolValue:
@@ -96,13 +99,13 @@ func (c *v1Converter) toAnyValueData(v *v1.AnyValue) omodel.AnyValueDatum {
 		return &omodel.AnyValueDouble{DoubleValue: vv.DoubleValue}
 	case *v1.AnyValue_ArrayValue:
 		var vals []omodel.AnyValueDatum
-		for _, v := range vv.ArrayValue.Values {
+		for _, v := range vv.ArrayValue.GetValues() {
 			vals = append(vals, c.toAnyValueData(v))
 		}
 		return &omodel.AnyValueArray{ArrayValues: vals}
 	case *v1.AnyValue_KvlistValue:
 		vals := map[string]omodel.AnyValueDatum{}
-		for _, v := range vv.KvlistValue.Values {
+		for _, v := range vv.KvlistValue.GetValues() {
 			vals[v.Key] = c.toAnyValueData(v.Value)
 		}
 		return &omodel.AnyValueKV{KVValue: vals}
-- 
2.43.0


From bb0b4319af40d3f02253845a99f4c6f90bb85357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:46 +0000
Subject: [PATCH 14/48] fix: count only the time within a span as consumed by
 it

A child which outlives its parent (an asynchronous call) made the unsigned
subtraction wrap around, so the report named a wrong service as the most
time-consuming one.
---
 otel/omodel/span.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/otel/omodel/span.go b/otel/omodel/span.go
index 87ef35c..8a734fa 100644
--- a/otel/omodel/span.go
+++ b/otel/omodel/span.go
@@ -77,6 +77,10 @@ func (s *Span) CalcConsumedTime() uint64 {
 	consumedTime := uint64(0)
 	lastEndTime := s.StartTimeUnixNano
 	for _, t := range childTimes {
+		if s.EndTimeUnixNano <= t[0] {
+			// Asynchronous call starting after the span
+			break
+		}
 		if lastEndTime < t[0] {
 			consumedTime += t[0] - lastEndTime
 		}
@@ -84,7 +88,9 @@ func (s *Span) CalcConsumedTime() uint64 {
 			lastEndTime = t[1]
 		}
 	}
-	consumedTime += s.EndTimeUnixNano - lastEndTime
+	if lastEndTime < s.EndTimeUnixNano {
+		consumedTime += s.EndTimeUnixNano - lastEndTime
+	}
 
 	return consumedTime
 }
-- 
2.43.0


From 9694e2ad7b150956715b763a4ba06b71672ee5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:46 +0000
Subject: [PATCH 15/48] fix: list a trace found in several time ranges only
 once

A trace whose spans match in two of the 30 minute searches (also one starting
right at a boundary) was reported twice.
---
 otel/jaeger/trace_fetcher.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/otel/jaeger/trace_fetcher.go b/otel/jaeger/trace_fetcher.go
index aa1428f..2a8126b 100644
--- a/otel/jaeger/trace_fetcher.go
+++ b/otel/jaeger/trace_fetcher.go
@@ -22,6 +22,7 @@ func (tf *TraceFetcher) FetchCompactedTraces(size int32, start, end time.Time, s
 	interval := 30 * time.Minute
 
 	var res []*omodel.TraceTree
+	found := map[string]bool{}
 	times := lib.GenerateTimeRanges(start, end, interval)
 	for _, start := range times {
 		param := &api_v3.TraceQueryParameters{
@@ -37,7 +38,15 @@ func (tf *TraceFetcher) FetchCompactedTraces(size int32, start, end time.Time, s
 		if err != nil {
 			return nil, err
 		}
-		res = append(res, trees...)
+		for _, tree := range trees {
+			// A trace having matched spans in several ranges is found in each of them
+			key := string(tree.Root.TraceId) + "/" + string(tree.Root.SpanId)
+			if found[key] {
+				continue
+			}
+			found[key] = true
+			res = append(res, tree)
+		}
 	}
 
 	return res, nil
-- 
2.43.0


From a2652c33c2699210b840d48468e35677749e73f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:34 +0000
Subject: [PATCH 16/48] fix: show PerformanceInsights load when start is in a
 zone off the full hour

Data points are grouped by the hours of UTC while the hours to show were taken
in the zone of the start, so for zones like +05:30 every load was lost.
---
 infra/aws/pi_sql_load_avg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infra/aws/pi_sql_load_avg.go b/infra/aws/pi_sql_load_avg.go
index 3d30367..9f34e7a 100644
--- a/infra/aws/pi_sql_load_avg.go
+++ b/infra/aws/pi_sql_load_avg.go
@@ -66,7 +66,7 @@ func ConvertPiSQLLoadAvgsToVms(start, end time.Time, avgs []*PiSQLLoadAvg) []*vi
 		}
 	}
 
-	target := lib.NormalizeTimeByHour(start).UTC()
+	target := lib.NormalizeTimeByHour(start.UTC())
 	var res []*viewmodel.VmTimeDbLoad
 	for !target.After(end) {
 		if l, ok := sqlLoadMap[target]; ok {
-- 
2.43.0


From 9649a4acd4ce646d36d9a8361e49ce4bddcb83cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:45 +0000
Subject: [PATCH 17/48] fix: read all pages of the answers of RDS and
 PerformanceInsights

Databases and metrics beyond the first page were left out of the report
without any notice.
---
 infra/aws/performance_insights.go | 13 +++++++++----
 infra/aws/rds.go                  | 22 +++++++++++++---------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/infra/aws/performance_insights.go b/infra/aws/performance_insights.go
index 0bb20b0..c573b13 100644
--- a/infra/aws/performance_insights.go
+++ b/infra/aws/performance_insights.go
@@ -49,7 +49,7 @@ func (pi *PerformanceInsights) GetHalfDayTokenizedSqlMetrics(db *RdsDB, start ti
 }
 
 func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, group string) (*aPi.GetResourceMetricsOutput, error) {
-	output, err := pi.client.GetResourceMetrics(context.Background(), &aPi.GetResourceMetricsInput{
+	paginator := aPi.NewGetResourceMetricsPaginator(pi.client, &aPi.GetResourceMetricsInput{
 		Identifier: &db.DbiResourceId,
 		MetricQueries: []types.MetricQuery{
 			{
@@ -66,11 +66,16 @@ func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, gro
 		PeriodInSeconds: lib.Ptr(int32(300)),
 	})
 
-	if err != nil {
-		return nil, errors.Wrap(err, "failed to call GetResourceMetrics of PerformanceInsights")
+	res := &aPi.GetResourceMetricsOutput{}
+	for paginator.HasMorePages() {
+		output, err := paginator.NextPage(context.Background())
+		if err != nil {
+			return nil, errors.Wrap(err, "failed to call GetResourceMetrics of PerformanceInsights")
+		}
+		res.MetricList = append(res.MetricList, output.MetricList...)
 	}
 
-	return output, nil
+	return res, nil
 }
 
 func (pi *PerformanceInsights) convertResourceMetricsToAvgs(db *RdsDB, output *aPi.GetResourceMetricsOutput, sqlKey, tokenizedIdKey string) []*PiSQLLoadAvg {
diff --git a/infra/aws/rds.go b/infra/aws/rds.go
index 744c93c..e60a00a 100644
--- a/infra/aws/rds.go
+++ b/infra/aws/rds.go
@@ -25,21 +25,25 @@ func NewRdsWithCli(cli aRds.DescribeDBInstancesAPIClient) *Rds {
 }
 
 func (rds *Rds) GetDBs(engines []string) ([]*RdsDB, error) {
-	output, err := rds.client.DescribeDBInstances(context.Background(), &aRds.DescribeDBInstancesInput{
+	paginator := aRds.NewDescribeDBInstancesPaginator(rds.client, &aRds.DescribeDBInstancesInput{
 		Filters: []types.Filter{
 			{Name: lib.Ptr("engine"), Values: engines},
 		},
 	})
-	if err != nil {
-		return nil, errors.Wrap(err, "failed to describe db instances")
-	}
 
 	var res []*RdsDB
-	for _, ins := range output.DBInstances {
-		res = append(res, &RdsDB{
-			InstanceIdentifier: *ins.DBInstanceIdentifier,
-			DbiResourceId:      *ins.DbiResourceId,
-		})
+	for paginator.HasMorePages() {
+		output, err := paginator.NextPage(context.Background())
+		if err != nil {
+			return nil, errors.Wrap(err, "failed to describe db instances")
+		}
+
+		for _, ins := range output.DBInstances {
+			res = append(res, &RdsDB{
+				InstanceIdentifier: *ins.DBInstanceIdentifier,
+				DbiResourceId:      *ins.DbiResourceId,
+			})
+		}
 	}
 
 	return res, nil
-- 
2.43.0


From 6f7f4df09983d53e0bc7b9456a5733ebe93f74f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:49 +0000
Subject: [PATCH 18/48] fix: accept functional indexes of MySQL

information_schema.STATISTICS has NULL as COLUMN_NAME for a functional key
part, and scanning it failed the whole command.
---
 infra/mysql/index_info.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/infra/mysql/index_info.go b/infra/mysql/index_info.go
index 14c4b46..e72e1fd 100644
--- a/infra/mysql/index_info.go
+++ b/infra/mysql/index_info.go
@@ -1,5 +1,7 @@
 package mysql
 
+import "database/sql"
+
 const indexFetchQuery = `
 SELECT
 	TABLE_NAME,
@@ -20,9 +22,10 @@ type IndexInfo struct {
 }
 
 type flatIndexInfo struct {
-	TableName  string `db:"TABLE_NAME"`
-	IndexName  string `db:"INDEX_NAME"`
-	ColumnName string `db:"COLUMN_NAME"`
+	TableName string `db:"TABLE_NAME"`
+	IndexName string `db:"INDEX_NAME"`
+	// ColumnName is NULL for a functional key part
+	ColumnName sql.NullString `db:"COLUMN_NAME"`
 }
 
 func toIndexInfo(orderedFlatInfo []*flatIndexInfo) []*IndexInfo {
@@ -33,11 +36,11 @@ func toIndexInfo(orderedFlatInfo []*flatIndexInfo) []*IndexInfo {
 	for _, flatInfo := range orderedFlatInfo {
 		if lastTName == flatInfo.TableName && lastIName == flatInfo.IndexName {
 			idx := infos[len(infos)-1]
-			idx.Columns = append(idx.Columns, flatInfo.ColumnName)
+			idx.Columns = append(idx.Columns, flatInfo.ColumnName.String)
 		} else {
 			infos = append(infos, &IndexInfo{
 				TableName: flatInfo.TableName,
-				Columns:   []string{flatInfo.ColumnName},
+				Columns:   []string{flatInfo.ColumnName.String},
 			})
 		}
 
-- 
2.43.0


From 4fb40a30ebe508529c11296f5b9b39ee154d557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:00 +0000
Subject: [PATCH 19/48] fix: recognise existing PostgreSQL indexes on columns
 needing quotes

PG_GET_INDEXDEF quotes names such as "userId" or "order", so existing indexes on
them never matched and were suggested again.
---
 infra/hasura/index_info.go   |  3 ++-
 infra/postgres/index_info.go |  3 ++-
 lib/pg_identifier.go         | 18 ++++++++++++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)
 create mode 100644 lib/pg_identifier.go

diff --git a/infra/hasura/index_info.go b/infra/hasura/index_info.go
index 45b12de..3adace9 100644
--- a/infra/hasura/index_info.go
+++ b/infra/hasura/index_info.go
@@ -5,6 +5,7 @@ import (
 	"github.com/lib/pq"
 	"github.com/mrasu/GravityR/lib"
 	"github.com/pkg/errors"
+	"github.com/samber/lo"
 	"strings"
 )
 
@@ -65,7 +66,7 @@ func parseIndexFetchResult(res *RunSQLResponse) ([]*IndexInfo, error) {
 
 		infos = append(infos, &IndexInfo{
 			TableName: r[0],
-			Columns:   cols,
+			Columns:   lo.Map(cols, func(c string, _ int) string { return lib.UnquotePgIdentifier(c) }),
 		})
 	}
 
diff --git a/infra/postgres/index_info.go b/infra/postgres/index_info.go
index 4e5bd32..fe5636f 100644
--- a/infra/postgres/index_info.go
+++ b/infra/postgres/index_info.go
@@ -2,6 +2,7 @@ package postgres
 
 import (
 	"github.com/lib/pq"
+	"github.com/mrasu/GravityR/lib"
 	"github.com/samber/lo"
 )
 
@@ -41,7 +42,7 @@ func toIndexInfo(queryInfos []*queryIndexInfo) []*IndexInfo {
 	return lo.Map(queryInfos, func(qi *queryIndexInfo, _ int) *IndexInfo {
 		return &IndexInfo{
 			TableName: qi.TableName,
-			Columns:   qi.ColumnNames,
+			Columns:   lo.Map(qi.ColumnNames, func(c string, _ int) string { return lib.UnquotePgIdentifier(c) }),
 		}
 	})
 }
diff --git a/lib/pg_identifier.go b/lib/pg_identifier.go
new file mode 100644
index 0000000..5caba63
--- /dev/null
+++ b/lib/pg_identifier.go
@@ -0,0 +1,18 @@
+package lib
+
+import "strings"
+
+// UnquotePgIdentifier returns the name meant by an identifier which PostgreSQL quoted when it's needed.
+// Text which isn't a quoted identifier (e.g. expression) is returned as is.
+func UnquotePgIdentifier(text string) string {
+	if len(text) < 2 || !strings.HasPrefix(text, `"`) || !strings.HasSuffix(text, `"`) {
+		return text
+	}
+
+	inner := text[1 : len(text)-1]
+	if strings.Contains(strings.ReplaceAll(inner, `""`, ""), `"`) {
+		return text
+	}
+
+	return strings.ReplaceAll(inner, `""`, `"`)
+}
-- 
2.43.0


From f123c38e7a980ee0d615bb486909caa2a90b8f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:39 +0000
Subject: [PATCH 20/48] fix: tell PostgreSQL columns differing only in case
 apart

An index on "STATUS" suppressed the suggestion for status because columns of
existing indexes were compared ignoring case, which only MySQL does.
---
 database/dmodel/index_target.go         | 2 +-
 database/mysql/mservice/index_getter.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/database/dmodel/index_target.go b/database/dmodel/index_target.go
index 328ccc4..7c84a4e 100644
--- a/database/dmodel/index_target.go
+++ b/database/dmodel/index_target.go
@@ -121,7 +121,7 @@ func (it *IndexTarget) HasSameIdxColumns(info *IndexTarget) bool {
 	}
 
 	for i, col := range info.Columns {
-		if !strings.EqualFold(it.Columns[i].Name, col.Name) {
+		if it.Columns[i].Name != col.Name {
 			return false
 		}
 	}
diff --git a/database/mysql/mservice/index_getter.go b/database/mysql/mservice/index_getter.go
index ac8f0ae..ef6c999 100644
--- a/database/mysql/mservice/index_getter.go
+++ b/database/mysql/mservice/index_getter.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mrasu/GravityR/database/dmodel"
 	"github.com/mrasu/GravityR/infra/mysql"
 	"github.com/samber/lo"
+	"strings"
 )
 
 type IndexGetter struct {
@@ -21,6 +22,8 @@ func (ig *IndexGetter) GetIndexes(dbName string, tables []string) ([]*dmodel.Ind
 	}
 
 	return lo.Map(infos, func(info *mysql.IndexInfo, _ int) *dmodel.IndexTarget {
-		return dmodel.NewIndexTarget(info.TableName, info.Columns)
+		// the analysis of a query uses lower-cased names because MySQL ignores the case of column names
+		cols := lo.Map(info.Columns, func(c string, _ int) string { return strings.ToLower(c) })
+		return dmodel.NewIndexTarget(info.TableName, cols)
 	}), nil
 }
-- 
2.43.0


From aa5e2b76dab13abe23e2c611d227c0ee7c2e5045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:35 +0000
Subject: [PATCH 21/48] fix: notice errors in the answer to a GraphQL query

Hasura answers a failed query with status 200 and an errors member, so a query
which did not run was reported with its time as examination result.
---
 infra/hasura/client.go           | 12 +++++++++++-
 infra/hasura/graphql_response.go |  7 +++++++
 2 files changed, 18 insertions(+), 1 deletion(-)
 create mode 100644 infra/hasura/graphql_response.go

diff --git a/infra/hasura/client.go b/infra/hasura/client.go
index 8ddf7b7..41f4d77 100644
--- a/infra/hasura/client.go
+++ b/infra/hasura/client.go
@@ -37,10 +37,20 @@ func (c *Client) QueryWithoutResult(query string, variables map[string]interface
 		"query":     query,
 		"variables": variables,
 	}
-	_, err := c.post(graphqlPath, body)
+	res, err := c.post(graphqlPath, body)
 	if err != nil {
 		return errors.Wrap(err, "query for GraphQL failed")
 	}
+
+	// GraphQL tells errors by the body of a successful response
+	gres := &GraphQLResponse{}
+	err = json.Unmarshal(res, gres)
+	if err != nil {
+		return errors.Wrap(err, "failed to unmarshal response from Hasura")
+	}
+	if len(gres.Errors) > 0 {
+		return errors.Errorf("query for GraphQL failed: %s", gres.Errors)
+	}
 	return nil
 }
 
diff --git a/infra/hasura/graphql_response.go b/infra/hasura/graphql_response.go
new file mode 100644
index 0000000..ce61f9e
--- /dev/null
+++ b/infra/hasura/graphql_response.go
@@ -0,0 +1,7 @@
+package hasura
+
+import "encoding/json"
+
+type GraphQLResponse struct {
+	Errors []json.RawMessage `json:"errors"`
+}
-- 
2.43.0


From ef2ac278db518216b08d50fe957e3a655fd988fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:46 +0000
Subject: [PATCH 22/48] fix: pass numbers of GraphQL variables without loss

Variables were decoded into float64, so a large id such as 9007199254740993 was
sent as another number.
---
 cmd/db/suggest/hasura/postgres.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/db/suggest/hasura/postgres.go b/cmd/db/suggest/hasura/postgres.go
index 8fe1f74..2ef8759 100644
--- a/cmd/db/suggest/hasura/postgres.go
+++ b/cmd/db/suggest/hasura/postgres.go
@@ -16,6 +16,8 @@ import (
 	"github.com/rs/zerolog/log"
 	"github.com/samber/lo"
 	"github.com/spf13/cobra"
+	"io"
+	"strings"
 )
 
 var PostgresCmd = &cobra.Command{
@@ -132,10 +134,17 @@ func (pr *postgresRunner) suggest(outputPath string, cli *hasura.Client) error {
 }
 
 func (pr *postgresRunner) parseJSONToVariables(jsonStr string) (map[string]interface{}, error) {
+	// Keep numbers as they are because float64 cannot represent large ones (e.g. bigint) exactly
+	d := json.NewDecoder(strings.NewReader(jsonStr))
+	d.UseNumber()
+
 	var variables map[string]interface{}
-	if err := json.Unmarshal([]byte(jsonStr), &variables); err != nil {
+	if err := d.Decode(&variables); err != nil {
 		return nil, errors.Wrap(err, "failed to parse variables")
 	}
+	if _, err := d.Token(); err != io.EOF {
+		return nil, errors.New("failed to parse variables: unexpected text after JSON")
+	}
 
 	return variables, nil
 }
-- 
2.43.0


From 9a53f9dcc29e6d7e674b84194e53fd9621dd7a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:36 +0000
Subject: [PATCH 23/48] fix: report a malformed answer of Hasura instead of
 crashing

---
 infra/hasura/client.go      | 4 ++--
 infra/hasura/column_info.go | 7 +++++--
 infra/hasura/index_info.go  | 3 +++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/infra/hasura/client.go b/infra/hasura/client.go
index 41f4d77..47ac242 100644
--- a/infra/hasura/client.go
+++ b/infra/hasura/client.go
@@ -104,8 +104,8 @@ func (c *Client) GetTableColumns(schema string, tableNames []string) ([]*ColumnI
 	if err != nil {
 		return nil, err
 	}
-	cols := parseColumnFetchResult(res)
-	return cols, nil
+
+	return parseColumnFetchResult(res)
 }
 
 func (c *Client) GetIndexes(schema string, tableNames []string) ([]*IndexInfo, error) {
diff --git a/infra/hasura/column_info.go b/infra/hasura/column_info.go
index 3be333f..d8fb98a 100644
--- a/infra/hasura/column_info.go
+++ b/infra/hasura/column_info.go
@@ -52,13 +52,16 @@ func buildColumnFetchQuery(schema string, tableNames []string) (string, error) {
 	return q, nil
 }
 
-func parseColumnFetchResult(res *RunSQLResponse) []*ColumnInfo {
+func parseColumnFetchResult(res *RunSQLResponse) ([]*ColumnInfo, error) {
 	var cols []*ColumnInfo
 	for i, r := range res.Result {
 		if i == 0 {
 			// first row shows name of columns
 			continue
 		}
+		if len(r) != 3 {
+			return nil, errors.Errorf("unexpected result from hasura to fetch columns: %d columns in a row", len(r))
+		}
 
 		isPk := false
 		if r[2] == "t" {
@@ -72,5 +75,5 @@ func parseColumnFetchResult(res *RunSQLResponse) []*ColumnInfo {
 		})
 	}
 
-	return cols
+	return cols, nil
 }
diff --git a/infra/hasura/index_info.go b/infra/hasura/index_info.go
index 3adace9..00e92a8 100644
--- a/infra/hasura/index_info.go
+++ b/infra/hasura/index_info.go
@@ -57,6 +57,9 @@ func parseIndexFetchResult(res *RunSQLResponse) ([]*IndexInfo, error) {
 			// first row shows name of columns
 			continue
 		}
+		if len(r) != 2 {
+			return nil, errors.Errorf("unexpected result from hasura to fetch indexes: %d columns in a row", len(r))
+		}
 
 		cols := pq.StringArray{}
 		err := cols.Scan(r[1])
-- 
2.43.0


From 7c0a42206ba2e2a62894b0bf443134cc8272a3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:59 +0000
Subject: [PATCH 24/48] fix: refuse a query having no or several statements

---
 database/mysql/mservice/parse.go    | 7 +++++++
 database/postgres/pservice/parse.go | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/database/mysql/mservice/parse.go b/database/mysql/mservice/parse.go
index 82b8d4a..17d4169 100644
--- a/database/mysql/mservice/parse.go
+++ b/database/mysql/mservice/parse.go
@@ -3,6 +3,7 @@ package mservice
 import (
 	"github.com/pingcap/tidb/parser"
 	"github.com/pingcap/tidb/parser/ast"
+	"github.com/pkg/errors"
 )
 
 func Parse(p *parser.Parser, query string) (ast.StmtNode, error) {
@@ -11,5 +12,11 @@ func Parse(p *parser.Parser, query string) (ast.StmtNode, error) {
 		return nil, err
 	}
 
+	if len(stmtNodes) == 0 {
+		return nil, errors.New("no statement is found in query")
+	}
+	if len(stmtNodes) > 1 {
+		return nil, errors.New("not supporting query having multiple statements")
+	}
 	return stmtNodes[0], nil
 }
diff --git a/database/postgres/pservice/parse.go b/database/postgres/pservice/parse.go
index 5018253..b96bc44 100644
--- a/database/postgres/pservice/parse.go
+++ b/database/postgres/pservice/parse.go
@@ -11,6 +11,9 @@ func Parse(query string) (*parser.Statement, error) {
 		return nil, errors.Wrap(err, "failed to parse sql")
 	}
 
+	if len(stmts) == 0 {
+		return nil, errors.New("no statement is found in query")
+	}
 	if len(stmts) > 1 {
 		return nil, errors.New("not supporting query having multiple statements")
 	}
-- 
2.43.0


From 2868f3a154f39e24bf6e476ee8e1e623a4f3a044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 25/48] fix: do not run a query other than SELECT by EXPLAIN
 ANALYZE

---
 cmd/db/suggest/mysql.go             |  5 +++++
 cmd/db/suggest/postgres.go          |  5 +++++
 database/mysql/mservice/parse.go    | 17 +++++++++++++++++
 database/postgres/pservice/parse.go | 17 +++++++++++++++++
 4 files changed, 44 insertions(+)

diff --git a/cmd/db/suggest/mysql.go b/cmd/db/suggest/mysql.go
index a128264..06253e1 100644
--- a/cmd/db/suggest/mysql.go
+++ b/cmd/db/suggest/mysql.go
@@ -64,6 +64,11 @@ func (mr *mysqlRunner) suggest(outputPath string, db *mysql.DB, dbName string) e
 		return err
 	}
 
+	err = mservice.EnsureSelect(mr.query)
+	if err != nil {
+		return err
+	}
+
 	aTree, err := mservice.NewExplainer(db).ExplainWithAnalyze(mr.query)
 	if err != nil {
 		return err
diff --git a/cmd/db/suggest/postgres.go b/cmd/db/suggest/postgres.go
index 54a7b78..4358dd5 100644
--- a/cmd/db/suggest/postgres.go
+++ b/cmd/db/suggest/postgres.go
@@ -64,6 +64,11 @@ func (pr *postgresRunner) suggest(outputPath string, db *postgres.DB, schema str
 		return err
 	}
 
+	err = pservice.EnsureSelect(pr.query)
+	if err != nil {
+		return err
+	}
+
 	aTree, err := pservice.NewExplainer(db).ExplainWithAnalyze(pr.query)
 	if err != nil {
 		return err
diff --git a/database/mysql/mservice/parse.go b/database/mysql/mservice/parse.go
index 17d4169..dabba41 100644
--- a/database/mysql/mservice/parse.go
+++ b/database/mysql/mservice/parse.go
@@ -1,6 +1,7 @@
 package mservice
 
 import (
+	mParser "github.com/mrasu/GravityR/database/mysql/mservice/parser"
 	"github.com/pingcap/tidb/parser"
 	"github.com/pingcap/tidb/parser/ast"
 	"github.com/pkg/errors"
@@ -20,3 +21,19 @@ func Parse(p *parser.Parser, query string) (ast.StmtNode, error) {
 	}
 	return stmtNodes[0], nil
 }
+
+// EnsureSelect returns an error unless the query is a single SELECT,
+// to avoid changing data because EXPLAIN ANALYZE runs the query.
+func EnsureSelect(query string) error {
+	rootNode, err := Parse(parser.New(), query)
+	if err != nil {
+		return err
+	}
+
+	_, errs := mParser.CollectTableNames(rootNode)
+	if len(errs) > 0 {
+		return errs[0]
+	}
+
+	return nil
+}
diff --git a/database/postgres/pservice/parse.go b/database/postgres/pservice/parse.go
index b96bc44..1579ab1 100644
--- a/database/postgres/pservice/parse.go
+++ b/database/postgres/pservice/parse.go
@@ -2,6 +2,7 @@ package pservice
 
 import (
 	"github.com/auxten/postgresql-parser/pkg/sql/parser"
+	pParser "github.com/mrasu/GravityR/database/postgres/pservice/parser"
 	"github.com/pkg/errors"
 )
 
@@ -19,3 +20,19 @@ func Parse(query string) (*parser.Statement, error) {
 	}
 	return &stmts[0], nil
 }
+
+// EnsureSelect returns an error unless the query is a single SELECT,
+// to avoid changing data because EXPLAIN ANALYZE runs the query.
+func EnsureSelect(query string) error {
+	stmt, err := Parse(query)
+	if err != nil {
+		return err
+	}
+
+	_, errs := pParser.CollectTableNames(stmt)
+	if len(errs) > 0 {
+		return errs[0]
+	}
+
+	return nil
+}
-- 
2.43.0


From ff291d00d334a8e537b6e517c62d8ec1c64982e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:06 +0000
Subject: [PATCH 26/48] fix: report unsupported PostgreSQL queries instead of
 crashing

---
 .../pservice/parser/collect_stmt_scopes.go     | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 3741098..08735e4 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -69,6 +69,14 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 
 	stmt, ok := selectNode.Select.(*tree.SelectClause)
 	if !ok {
+		if _, ok := selectNode.Select.(*tree.ValuesClause); ok && sc.scopeStack.Size() > 0 {
+			// VALUES in a subquery references no table
+			return false
+		}
+
+		sc.errors = append(sc.errors, lib.NewUnsupportedError(
+			fmt.Sprintf("not supporting UNION, EXCEPT, parenthesized SELECT etc.: %s", selectNode.Select.String()),
+		))
 		return false
 	}
 
@@ -169,7 +177,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 }
 
 func (sc *scopeCollector) Leave(node interface{}) bool {
-	if sc.scopeStack.Top().node == node {
+	if top := sc.scopeStack.Top(); top != nil && top.node == node {
 		sc.scopeStack.Pop()
 	}
 
@@ -395,7 +403,9 @@ func (sc *scopeCollector) collectExprReferences(expr tree.Expr, defaultType dpar
 			}
 			if frame := e.WindowDef.Frame; frame != nil {
 				res = append(res, sc.collectExprReferences(frame.Bounds.StartBound.OffsetExpr, defaultType)...)
-				res = append(res, sc.collectExprReferences(frame.Bounds.EndBound.OffsetExpr, defaultType)...)
+				if frame.Bounds.EndBound != nil {
+					res = append(res, sc.collectExprReferences(frame.Bounds.EndBound.OffsetExpr, defaultType)...)
+				}
 			}
 		}
 
@@ -512,7 +522,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 		case *tree.AliasedTableExpr:
 			sc.lastError = lib.NewInvalidAstError("nested AS is unexpected")
 		case *tree.ParenTableExpr:
-			return sc.collectTables(tt)
+			return sc.collectTables(tt.Expr)
 		case *tree.JoinTableExpr:
 			tables, fields = sc.collectJoinReferences(tt)
 		case *tree.RowsFromExpr:
@@ -530,7 +540,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 			sc.lastError = lib.NewUnsupportedError("numeric table reference is not supported")
 		}
 	case *tree.ParenTableExpr:
-		return sc.collectTables(t)
+		return sc.collectTables(t.Expr)
 	case *tree.JoinTableExpr:
 		tables, fields = sc.collectJoinReferences(t)
 	case *tree.RowsFromExpr:
-- 
2.43.0


From 1dc90c5c2cf36dc70c5dec283306ffb5c85fbe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:10 +0000
Subject: [PATCH 27/48] fix: report a missing plan in the answer of Hasura
 instead of crashing

---
 cmd/db/suggest/hasura/postgres.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/db/suggest/hasura/postgres.go b/cmd/db/suggest/hasura/postgres.go
index 2ef8759..872bfdd 100644
--- a/cmd/db/suggest/hasura/postgres.go
+++ b/cmd/db/suggest/hasura/postgres.go
@@ -98,6 +98,9 @@ func (pr *postgresRunner) suggest(outputPath string, cli *hasura.Client) error {
 	}
 
 	r := res[0]
+	if r == nil {
+		return errors.New("hasura returned no plan")
+	}
 	aTree, err := pservice.NewExplainAnalyzeTreeBuilder().Build(r.Plan)
 	if err != nil {
 		return err
-- 
2.43.0


From bb0903bcd9ed12af02a7d9cd4892a67b24758913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:03 +0000
Subject: [PATCH 28/48] fix: log the right path of the report when --output is
 absolute

---
 cmd/util/log.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/util/log.go b/cmd/util/log.go
index 977261c..e1e7cf2 100644
--- a/cmd/util/log.go
+++ b/cmd/util/log.go
@@ -4,8 +4,7 @@ import (
 	"github.com/mrasu/GravityR/database/dmodel"
 	"github.com/rs/zerolog"
 	"github.com/rs/zerolog/log"
-	"os"
-	"path"
+	"path/filepath"
 )
 
 func LogError(err error) {
@@ -17,9 +16,9 @@ func LogError(err error) {
 }
 
 func LogResultOutputPath(outputPath string) {
-	wd, err := os.Getwd()
+	absPath, err := filepath.Abs(outputPath)
 	if err == nil {
-		log.Info().Msg("Result html is at: " + path.Join(wd, outputPath))
+		log.Info().Msg("Result html is at: " + absPath)
 	}
 }
 
-- 
2.43.0


From 1be70241e1d8a4c7dd91b1bc5ad32879c58536f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:08 +0000
Subject: [PATCH 29/48] fix: escape values in the connection string of
 PostgreSQL

---
 infra/postgres/config.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/infra/postgres/config.go b/infra/postgres/config.go
index 0c5a871..f78ebd5 100644
--- a/infra/postgres/config.go
+++ b/infra/postgres/config.go
@@ -47,19 +47,19 @@ func NewConfigFromEnv() (*Config, error) {
 func (cfg *Config) GetKVConnectionString() string {
 	var texts []string
 	if cfg.user != "" {
-		texts = append(texts, "user='"+cfg.user+"'")
+		texts = append(texts, "user="+quoteKV(cfg.user))
 	}
 	if cfg.password != "" {
-		texts = append(texts, "password='"+cfg.password+"'")
+		texts = append(texts, "password="+quoteKV(cfg.password))
 	}
 	if cfg.host != "" {
-		texts = append(texts, "host='"+cfg.host+"'")
+		texts = append(texts, "host="+quoteKV(cfg.host))
 	}
 	if cfg.port != "" {
-		texts = append(texts, "port='"+cfg.port+"'")
+		texts = append(texts, "port="+quoteKV(cfg.port))
 	}
 	if cfg.DBName != "" {
-		texts = append(texts, "dbname='"+cfg.DBName+"'")
+		texts = append(texts, "dbname="+quoteKV(cfg.DBName))
 	}
 	if cfg.paramText != "" {
 		texts = append(texts, cfg.paramText)
@@ -69,6 +69,11 @@ func (cfg *Config) GetKVConnectionString() string {
 	return strings.Join(texts, " ")
 }
 
+// quoteKV quotes a value of libpq's connection string
+func quoteKV(value string) string {
+	return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(value) + "'"
+}
+
 func (cfg *Config) GetSearchPathOrPublic() string {
 	if cfg.searchPath == "" {
 		return "public"
-- 
2.43.0


From 0c0be0a065021d90882bc7b7d0c58a9e66ea278d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:13 +0000
Subject: [PATCH 30/48] fix: respect sslmode in DB_PARAM_TEXT for PostgreSQL

---
 infra/postgres/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/infra/postgres/config.go b/infra/postgres/config.go
index f78ebd5..0248a7d 100644
--- a/infra/postgres/config.go
+++ b/infra/postgres/config.go
@@ -61,10 +61,11 @@ func (cfg *Config) GetKVConnectionString() string {
 	if cfg.DBName != "" {
 		texts = append(texts, "dbname="+quoteKV(cfg.DBName))
 	}
+	// Comes before paramText to let users choose another sslmode
+	texts = append(texts, "sslmode=disable")
 	if cfg.paramText != "" {
 		texts = append(texts, cfg.paramText)
 	}
-	texts = append(texts, "sslmode=disable")
 
 	return strings.Join(texts, " ")
 }
-- 
2.43.0


From 9f3fe950889164c2e50db90fcc9539e02286fc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:18 +0000
Subject: [PATCH 31/48] fix: do not log the password of a URL

---
 lib/http_transport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/http_transport.go b/lib/http_transport.go
index c155699..9c500f6 100644
--- a/lib/http_transport.go
+++ b/lib/http_transport.go
@@ -15,7 +15,7 @@ func NewHttpTransport() *HttpTransport {
 }
 
 func (ht *HttpTransport) RoundTrip(req *http.Request) (*http.Response, error) {
-	log.Printf("[http] --> %s %s", req.Method, req.URL)
+	log.Printf("[http] --> %s %s", req.Method, req.URL.Redacted())
 	startTime := time.Now()
 
 	resp, err := ht.Transport.RoundTrip(req)
-- 
2.43.0


From d77419a886d5b67805669178ee60d3ff927e1b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:00 +0000
Subject: [PATCH 32/48] fix: collect MySQL columns inside COLLATE,
 GROUP_CONCAT's ORDER BY and variable assignment

---
 database/mysql/mservice/parser/collect_stmt_scopes.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index f1a1a3d..49e0363 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -235,7 +235,8 @@ func (sc *scopeCollector) collectExprReferences(expr ast.ExprNode, defaultType d
 	case *ast.ValuesExpr:
 		sc.lastError = lib.NewInvalidAstError("VALUES is not expected")
 	case *ast.VariableExpr:
-		// do nothing as variable doesn't relate to table's column
+		// variable itself doesn't relate to table's column, but the value assigned to it can. e.g.) @a := name
+		res = append(res, sc.collectExprReferences(e.Value, defaultType)...)
 	case *ast.MaxValueExpr:
 		// MAXVALUE appears in table definition for partition
 		sc.lastError = lib.NewInvalidAstError("MAXVALUE is not expected")
@@ -245,7 +246,7 @@ func (sc *scopeCollector) collectExprReferences(expr ast.ExprNode, defaultType d
 			res = append(res, &dparser.FieldColumn{Table: c.Table.L, Name: c.Name.L, Type: defaultType})
 		}
 	case *ast.SetCollationExpr:
-		// do nothing as COLLATE doesn't relate to table's column
+		res = append(res, sc.collectExprReferences(e.Expr, defaultType)...)
 	case *ast.FuncCallExpr:
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
@@ -259,6 +260,12 @@ func (sc *scopeCollector) collectExprReferences(expr ast.ExprNode, defaultType d
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
 		}
+		if e.Order != nil {
+			// e.g.) GROUP_CONCAT(name ORDER BY email)
+			for _, i := range e.Order.Items {
+				res = append(res, sc.collectExprReferences(i.Expr, defaultType)...)
+			}
+		}
 	case *ast.WindowFuncExpr:
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
-- 
2.43.0


From 019b7209cb451a444efee2b0f448e91983201515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:26 +0000
Subject: [PATCH 33/48] fix: visit PostgreSQL subqueries inside ORDER BY of
 functions and windows and inside OFFSET

---
 database/postgres/pservice/ast/ast_walker.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/database/postgres/pservice/ast/ast_walker.go b/database/postgres/pservice/ast/ast_walker.go
index 27fd65f..5ed798c 100644
--- a/database/postgres/pservice/ast/ast_walker.go
+++ b/database/postgres/pservice/ast/ast_walker.go
@@ -130,6 +130,9 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 					walk(node.WindowDef)
 				}
 				walk(node.Exprs, node.Filter)
+				if node.OrderBy != nil {
+					walk(node.OrderBy)
+				}
 			case *tree.IndexTableDef:
 			case *tree.JoinTableExpr:
 				walk(node.Left, node.Right, node.Cond)
@@ -167,7 +170,7 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 				}
 				walk(node.Select)
 			case *tree.Limit:
-				walk(node.Count)
+				walk(node.Count, node.Offset)
 			case *tree.SelectClause:
 				walk(node.Exprs)
 				if node.Where != nil {
@@ -228,6 +231,9 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 				}
 			case *tree.WindowDef:
 				walk(node.Partitions)
+				if node.OrderBy != nil {
+					walk(node.OrderBy)
+				}
 				if node.Frame != nil {
 					walk(node.Frame)
 				}
-- 
2.43.0


From fd1f11591a83749c3382e462c47d0b60c242d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:26 +0000
Subject: [PATCH 34/48] fix: collect columns of PostgreSQL's DISTINCT ON

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 08735e4..5fcd2b6 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -95,6 +95,14 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 			Columns: cols,
 		})
 	}
+	for _, expr := range stmt.DistinctOn {
+		f, err := sc.createFieldFromExpr(expr, dparser.FieldReference)
+		if err == nil {
+			foundFields = append(foundFields, f)
+		} else {
+			sc.errors = append(sc.errors, err)
+		}
+	}
 	for _, t := range stmt.From.Tables {
 		tables, fields := sc.collectTables(t)
 		if err := sc.getAndClearLastError(); err != nil {
-- 
2.43.0


From c0de727a8e5421e4f74724cb48a685e0a818e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:02 +0000
Subject: [PATCH 35/48] fix: do not crash on incomplete answers of AWS

---
 infra/aws/performance_insights.go | 2 +-
 infra/aws/rds.go                  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/infra/aws/performance_insights.go b/infra/aws/performance_insights.go
index c573b13..ee98d76 100644
--- a/infra/aws/performance_insights.go
+++ b/infra/aws/performance_insights.go
@@ -81,7 +81,7 @@ func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, gro
 func (pi *PerformanceInsights) convertResourceMetricsToAvgs(db *RdsDB, output *aPi.GetResourceMetricsOutput, sqlKey, tokenizedIdKey string) []*PiSQLLoadAvg {
 	var res []*PiSQLLoadAvg
 	for _, m := range output.MetricList {
-		if m.Key.Metric == nil || *m.Key.Metric != loadAvgMetricName {
+		if m.Key == nil || m.Key.Metric == nil || *m.Key.Metric != loadAvgMetricName {
 			continue
 		}
 		if m.Key.Dimensions == nil {
diff --git a/infra/aws/rds.go b/infra/aws/rds.go
index e60a00a..d72be2c 100644
--- a/infra/aws/rds.go
+++ b/infra/aws/rds.go
@@ -39,6 +39,9 @@ func (rds *Rds) GetDBs(engines []string) ([]*RdsDB, error) {
 		}
 
 		for _, ins := range output.DBInstances {
+			if ins.DBInstanceIdentifier == nil || ins.DbiResourceId == nil {
+				continue
+			}
 			res = append(res, &RdsDB{
 				InstanceIdentifier: *ins.DBInstanceIdentifier,
 				DbiResourceId:      *ins.DbiResourceId,
-- 
2.43.0


From a5dd7b2c1b6f52d3921cfed0b21a4f4d50debbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:59 +0000
Subject: [PATCH 36/48] fix: resolve a correlated column from the nearest
 enclosing query

---
 .../dservice/dparser/build_table_fields.go    | 60 ++++++++++---------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index a17cb97..54781d2 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -23,7 +23,7 @@ type tableFieldsBuilder struct{}
 
 func buildTableFields(dbTables map[string]*TableSchema, scope *StmtScope) (tableFieldColumns, error) {
 	tfb := &tableFieldsBuilder{}
-	info := newScopeInfo(dbTables, scope, tableOutputCols{})
+	info := newScopeInfo(dbTables, scope, nil)
 	_, tableFields, err := tfb.calculateReferences(info)
 	if err != nil {
 		return nil, err
@@ -44,7 +44,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 
 		t := tableMap[s.Name]
 		if t.IsLateral {
-			subScopeVisibleCols = lo.Assign(info.originalExternalCols, info.getVisibleColumns())
+			subScopeVisibleCols = info.listVisibleColumns()
 		}
 
 		childInfo := info.createChild(s, subScopeVisibleCols)
@@ -56,7 +56,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 		info.addSubqueryInfo(s.Name, t.AsOrName(), cols, newFieldCols)
 	}
 
-	visibleCols := lo.Assign(info.originalExternalCols, info.getVisibleColumns())
+	visibleCols := info.listVisibleColumns()
 	for _, s := range scope.FieldScopes {
 		childInfo := info.createChild(s, visibleCols)
 		_, newFieldColumns, err := tfb.calculateReferences(childInfo)
@@ -109,8 +109,9 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 type scopeInfo struct {
 	dbTables map[string]*TableSchema
 
-	scope                *StmtScope
-	originalExternalCols tableOutputCols
+	scope *StmtScope
+	// originalExternalCols holds the columns of the enclosing queries, from the nearest to the farthest
+	originalExternalCols []tableOutputCols
 
 	referencingFields tableFieldColumns
 
@@ -119,7 +120,7 @@ type scopeInfo struct {
 	starTables *lib.Set[string]
 }
 
-func newScopeInfo(dbTables map[string]*TableSchema, scope *StmtScope, externalCols tableOutputCols) *scopeInfo {
+func newScopeInfo(dbTables map[string]*TableSchema, scope *StmtScope, externalCols []tableOutputCols) *scopeInfo {
 	referencingColumns := buildReferencingColumns(dbTables, scope.Tables)
 	refTables := newRefTables(referencingColumns, scope.Tables, externalCols)
 
@@ -154,7 +155,7 @@ func buildReferencingColumns(dbTables map[string]*TableSchema, tables []*Table)
 	return res
 }
 
-func (si *scopeInfo) createChild(childScope *StmtScope, externalCols tableOutputCols) *scopeInfo {
+func (si *scopeInfo) createChild(childScope *StmtScope, externalCols []tableOutputCols) *scopeInfo {
 	return newScopeInfo(si.dbTables, childScope, externalCols)
 }
 
@@ -239,6 +240,10 @@ func (si *scopeInfo) listStarReferencingCols(foundCols []*outputCol) ([]*outputC
 	return res, nil
 }
 
+func (si *scopeInfo) listVisibleColumns() []tableOutputCols {
+	return append([]tableOutputCols{si.getVisibleColumns()}, si.originalExternalCols...)
+}
+
 func (si *scopeInfo) getVisibleColumns() tableOutputCols {
 	res := tableOutputCols{}
 	for asName, name := range si.refTables.asToName {
@@ -252,18 +257,19 @@ func (si *scopeInfo) getVisibleColumns() tableOutputCols {
 
 type refTables struct {
 	internalCols tableOutputCols
-	externalCols tableOutputCols
+	externalCols []tableOutputCols
 
 	asToName        map[string]string
 	subqueryAsNames *lib.Set[string]
 }
 
-func newRefTables(referencingColumns tableOutputCols, tables []*Table, externalCols tableOutputCols) *refTables {
+func newRefTables(referencingColumns tableOutputCols, tables []*Table, externalCols []tableOutputCols) *refTables {
 	asToName := map[string]string{}
 	subqueryAsNames := lib.NewSet[string]()
-	for tName := range externalCols {
-		asToName[tName] = tName
-		subqueryAsNames.Add(tName)
+	for _, cols := range externalCols {
+		for tName := range cols {
+			subqueryAsNames.Add(tName)
+		}
 	}
 	for _, t := range tables {
 		asToName[t.AsOrName()] = t.Name
@@ -283,25 +289,21 @@ func (t *refTables) addSubquery(name, asName string, cols []*outputCol) {
 	t.subqueryAsNames.Add(asName)
 }
 
-func (t *refTables) getTableColsFromName(name string) ([]*outputCol, error) {
-	if cols, ok := t.internalCols[name]; ok {
-		return cols, nil
-	}
-	res, ok := t.externalCols[name]
-	if !ok {
+func (t *refTables) getTableColsFromAsName(asName string) ([]*outputCol, error) {
+	if name, ok := t.asToName[asName]; ok {
+		if cols, ok := t.internalCols[name]; ok {
+			return cols, nil
+		}
 		return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", name))
 	}
 
-	return res, nil
-}
-
-func (t *refTables) getTableColsFromAsName(asName string) ([]*outputCol, error) {
-	name, ok := t.asToName[asName]
-	if !ok {
-		return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", asName))
+	for _, externalCols := range t.externalCols {
+		if cols, ok := externalCols[asName]; ok {
+			return cols, nil
+		}
 	}
 
-	return t.getTableColsFromName(name)
+	return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", asName))
 }
 
 func (t *refTables) getReferencingColumnInfos(c *FieldColumn) ([]*columnInfo, error) {
@@ -323,8 +325,10 @@ func (t *refTables) getColumnInfos(colName string) ([]*columnInfo, error) {
 	if cols, ok := t.getColumnInfosFromTableOutputCols(t.internalCols, colName); ok {
 		return cols, nil
 	}
-	if cols, ok := t.getColumnInfosFromTableOutputCols(t.externalCols, colName); ok {
-		return cols, nil
+	for _, externalCols := range t.externalCols {
+		if cols, ok := t.getColumnInfosFromTableOutputCols(externalCols, colName); ok {
+			return cols, nil
+		}
 	}
 
 	if t.subqueryAsNames.Contains(colName) {
-- 
2.43.0


From 739adbc5dd1b544c9e10ffebf80354e69e2c4267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:55 +0000
Subject: [PATCH 37/48] fix: let LATERAL reference only the tables preceding it
 in FROM

---
 .../dservice/dparser/build_table_fields.go     | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 54781d2..7e3f894 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -44,7 +44,9 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 
 		t := tableMap[s.Name]
 		if t.IsLateral {
-			subScopeVisibleCols = info.listVisibleColumns()
+			// LATERAL can reference only tables preceding it in FROM
+			_, pos, _ := lo.FindIndexOf(scope.Tables, func(other *Table) bool { return other == t })
+			subScopeVisibleCols = info.listVisibleColumns(scope.Tables[:pos])
 		}
 
 		childInfo := info.createChild(s, subScopeVisibleCols)
@@ -56,7 +58,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 		info.addSubqueryInfo(s.Name, t.AsOrName(), cols, newFieldCols)
 	}
 
-	visibleCols := info.listVisibleColumns()
+	visibleCols := info.listVisibleColumns(scope.Tables)
 	for _, s := range scope.FieldScopes {
 		childInfo := info.createChild(s, visibleCols)
 		_, newFieldColumns, err := tfb.calculateReferences(childInfo)
@@ -240,15 +242,15 @@ func (si *scopeInfo) listStarReferencingCols(foundCols []*outputCol) ([]*outputC
 	return res, nil
 }
 
-func (si *scopeInfo) listVisibleColumns() []tableOutputCols {
-	return append([]tableOutputCols{si.getVisibleColumns()}, si.originalExternalCols...)
+func (si *scopeInfo) listVisibleColumns(tables []*Table) []tableOutputCols {
+	return append([]tableOutputCols{si.getVisibleColumns(tables)}, si.originalExternalCols...)
 }
 
-func (si *scopeInfo) getVisibleColumns() tableOutputCols {
+func (si *scopeInfo) getVisibleColumns(tables []*Table) tableOutputCols {
 	res := tableOutputCols{}
-	for asName, name := range si.refTables.asToName {
-		if cols, ok := si.refTables.internalCols[name]; ok {
-			res[asName] = cols
+	for _, t := range tables {
+		if cols, ok := si.refTables.internalCols[t.Name]; ok {
+			res[t.AsOrName()] = cols
 		}
 	}
 
-- 
2.43.0


From ec77b91d4fe4a02844208e1b9ccc25159a6d3c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:03 +0000
Subject: [PATCH 38/48] fix: an examination without any index leaves an empty
 list in the report, so that its page opens

---
 database/dmodel/examination_result.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database/dmodel/examination_result.go b/database/dmodel/examination_result.go
index e492522..dce87f0 100644
--- a/database/dmodel/examination_result.go
+++ b/database/dmodel/examination_result.go
@@ -15,7 +15,8 @@ func NewExaminationResult(irs []*ExaminationIndexResult, time int64) *Examinatio
 }
 
 func (er *ExaminationResult) ToViewModel() *viewmodel.VmExaminationResult {
-	var virs []*viewmodel.VmExaminationIndexResult
+	// the page iterates over the list: an examination without results is an empty list, not null
+	virs := make([]*viewmodel.VmExaminationIndexResult, 0, len(er.IndexResults))
 	for _, ir := range er.IndexResults {
 		virs = append(virs, ir.ToViewModel())
 	}
-- 
2.43.0


From 4dd41f31c75a78da79f1cb866e6dbcc3bb2ef70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:30 +0000
Subject: [PATCH 39/48] fix: tooltips of the execution timeline show times and
 costs that are zero

---
 client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte  | 7 ++++---
 .../src/pages/suggest/postgres/ExplainAnalyzeChart.svelte  | 4 +++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte b/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte
index 31d7b6f..5b94e78 100644
--- a/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte
+++ b/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte
@@ -37,9 +37,10 @@
         : trimmedText.substring(0, 50);
 
     const initCost = prop.IAnalyzeData.estimatedInitCost;
-    const InitCostHtml = initCost
-      ? `<div>Initial cost (estimated) : ${initCost}</div>`
-      : "";
+    const InitCostHtml =
+      initCost != null
+        ? `<div>Initial cost (estimated) : ${initCost}</div>`
+        : "";
 
     const avgText = prop.IAnalyzeData.actualTimeAvg?.toString() ?? "-";
     const avgHtml =
diff --git a/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte b/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
index 3f7e094..7375c3e 100644
--- a/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
+++ b/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
@@ -63,7 +63,9 @@
         <div>Width (estimated) : ${estimatedWidth}</div>
         <!-- actualTimeAvg seems not the average time of loops for PostgreSQL even doc says so... -->
         <div>Time (actual) :  ${
-          actualTimeFirstRow ? `${actualTimeFirstRow} ~ ${actualTimeAvg}` : "-"
+          actualTimeFirstRow != null
+            ? `${actualTimeFirstRow} ~ ${actualTimeAvg}`
+            : "-"
         }</div>
         <div>Rows returned (actual) : ${actualReturnedRows ?? "-"}</div>
         <div>Loop count (actual) : ${actualLoopCount ?? "-"}</div>
-- 
2.43.0


From fa63ac448986501485dcfdc817c9785a5b02abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:30 +0000
Subject: [PATCH 40/48] fix: tooltips show statements and names as text instead
 of reading them as HTML

---
 client/src/lib/Html.ts                                 | 10 ++++++++++
 .../pages/dig/performance_insights/util/LoadTooltip.ts | 10 ++++++----
 client/src/pages/suggest/hasura/ExplainChart.svelte    |  9 ++++++---
 .../src/pages/suggest/mysql/ExplainAnalyzeChart.svelte |  9 ++++++---
 .../pages/suggest/postgres/ExplainAnalyzeChart.svelte  |  9 ++++++---
 5 files changed, 34 insertions(+), 13 deletions(-)
 create mode 100644 client/src/lib/Html.ts

diff --git a/client/src/lib/Html.ts b/client/src/lib/Html.ts
new file mode 100644
index 0000000..3869c63
--- /dev/null
+++ b/client/src/lib/Html.ts
@@ -0,0 +1,10 @@
+const ENTITIES: Record<string, string> = {
+  "&": "&amp;",
+  "<": "&lt;",
+  ">": "&gt;",
+  '"': "&quot;",
+  "'": "&#39;",
+};
+
+export const escapeHtml = (text: string): string =>
+  text.replace(/[&<>"']/g, (c) => ENTITIES[c]);
diff --git a/client/src/pages/dig/performance_insights/util/LoadTooltip.ts b/client/src/pages/dig/performance_insights/util/LoadTooltip.ts
index c9260a2..30f42a5 100644
--- a/client/src/pages/dig/performance_insights/util/LoadTooltip.ts
+++ b/client/src/pages/dig/performance_insights/util/LoadTooltip.ts
@@ -1,3 +1,5 @@
+import { escapeHtml } from "@/lib/Html";
+
 type LoadProp = {
   dbName: string;
   sql: string;
@@ -12,14 +14,14 @@ export const createLoadMaxTooltip = (
   return `
     <div style='max-width: 500px; white-space: normal; max-height: ${maxHeight}px'>
       ${date.toUTCString()}<br />
-      Database: ${dbName}<br />
+      Database: ${escapeHtml(dbName)}<br />
       <div style='margin-bottom: 10px;'>
         db.load.avg:&nbsp;
         <span style='font-weight: bold;'>
           ${loadMaxPercent.toFixed(2)}%
         </span>
       </div>
-      <span style='white-space: break-spaces'>${sql}</span>
+      <span style='white-space: break-spaces'>${escapeHtml(sql)}</span>
     </div>
     `;
 };
@@ -36,14 +38,14 @@ export const createLoadSumTooltip = (
 ): string => {
   return `
     <div style='max-width: 500px; white-space: normal; max-height: ${maxHeight}px'>
-      Database: ${dbName}<br />
+      Database: ${escapeHtml(dbName)}<br />
       <div style='margin-bottom: 10px;'>
         Sum of db.load.avg:&nbsp;
         <span style='font-weight: bold;'>
           ${loadSumPercent.toFixed(2)}%
         </span>
       </div>
-      <span style='white-space: break-spaces'>${sql}</span>
+      <span style='white-space: break-spaces'>${escapeHtml(sql)}</span>
     </div>
     `;
 };
diff --git a/client/src/pages/suggest/hasura/ExplainChart.svelte b/client/src/pages/suggest/hasura/ExplainChart.svelte
index 5169497..29e1bef 100644
--- a/client/src/pages/suggest/hasura/ExplainChart.svelte
+++ b/client/src/pages/suggest/hasura/ExplainChart.svelte
@@ -1,5 +1,6 @@
 <script lang="ts">
   import { onMount } from "svelte";
+  import { escapeHtml } from "@/lib/Html";
   import { ExplainTree } from "@/components/ExplainTree/ExplainTree";
   import { getHighlightIndex } from "@/contexts/HighlightIndexContext";
   import { ExplainTreeChart } from "@/components/ExplainTree/ExplainTreeChart";
@@ -47,11 +48,13 @@
 
     return `
       <div style='text-align: left; padding: 5px'>
-        <div style='margin-bottom: 5px; font-weight: bold'>${text}</div>
+        <div style='margin-bottom: 5px; font-weight: bold'>${escapeHtml(text)}</div>
         <div>Table:
           ${
-            tableName ? `<span style='font-weight: bold'>${tableName}` : "-"
-          }</span>
+            tableName
+              ? `<span style='font-weight: bold'>${escapeHtml(tableName)}</span>`
+              : "-"
+          }
         </div>
         <div>Initial cost (estimated) : ${estimatedInitCost}</div>
         <div>Cost (estimated) : ${estimatedCost}</div>
diff --git a/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte b/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte
index 5b94e78..0a895b2 100644
--- a/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte
+++ b/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte
@@ -1,5 +1,6 @@
 <script lang="ts">
   import { onMount } from "svelte";
+  import { escapeHtml } from "@/lib/Html";
   import { ExplainTree } from "@/components/ExplainTree/ExplainTree";
   import { getHighlightIndex } from "@/contexts/HighlightIndexContext";
   import { ExplainTreeChart } from "@/components/ExplainTree/ExplainTreeChart";
@@ -59,11 +60,13 @@
 
     return `
       <div style='text-align: left; padding: 5px'>
-        <div style='margin-bottom: 5px; font-weight: bold'>${text}</div>
+        <div style='margin-bottom: 5px; font-weight: bold'>${escapeHtml(text)}</div>
         <div>Table:
           ${
-            tableName ? `<span style='font-weight: bold'>${tableName}` : "-"
-          }</span>
+            tableName
+              ? `<span style='font-weight: bold'>${escapeHtml(tableName)}</span>`
+              : "-"
+          }
         </div>
         ${InitCostHtml}
         <div>Cost (estimated) : ${estimatedCost ?? "-"}</div>
diff --git a/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte b/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
index 7375c3e..23fec11 100644
--- a/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
+++ b/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
@@ -1,5 +1,6 @@
 <script lang="ts">
   import { onMount } from "svelte";
+  import { escapeHtml } from "@/lib/Html";
   import { ExplainTree } from "@/components/ExplainTree/ExplainTree";
   import { getHighlightIndex } from "@/contexts/HighlightIndexContext";
   import { ExplainTreeChart } from "@/components/ExplainTree/ExplainTreeChart";
@@ -51,11 +52,13 @@
 
     return `
       <div style='text-align: left; padding: 5px'>
-        <div style='margin-bottom: 5px; font-weight: bold'>${text}</div>
+        <div style='margin-bottom: 5px; font-weight: bold'>${escapeHtml(text)}</div>
         <div>Table:
           ${
-            tableName ? `<span style='font-weight: bold'>${tableName}` : "-"
-          }</span>
+            tableName
+              ? `<span style='font-weight: bold'>${escapeHtml(tableName)}</span>`
+              : "-"
+          }
         </div>
         <div>Initial cost (estimated) : ${estimatedInitCost}</div>
         <div>Cost (estimated) : ${estimatedCost}</div>
-- 
2.43.0


From 46cd6e308ab54f85a7636d575eb1c947289040d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:04 +0000
Subject: [PATCH 41/48] fix: the page quotes table and column names in the
 statements it offers

---
 client/src/models/HasuraIndexTarget.ts   |  4 +++-
 client/src/models/IndexTarget.ts         | 10 ++++++++--
 client/src/models/PostgresIndexTarget.ts |  8 ++++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/client/src/models/HasuraIndexTarget.ts b/client/src/models/HasuraIndexTarget.ts
index c8813ef..45dde14 100644
--- a/client/src/models/HasuraIndexTarget.ts
+++ b/client/src/models/HasuraIndexTarget.ts
@@ -2,6 +2,8 @@ import { PostgresIndexTarget } from "@/models/PostgresIndexTarget";
 
 export class HasuraIndexTarget extends PostgresIndexTarget {
   toExecutableText(): string {
+    const sql = JSON.stringify(this.toAlterAddSQL()).replace(/'/g, `'\\''`);
+
     return `curl --request POST \
   --url "\${HASURA_URL}/v2/query" \
   --header 'Content-Type: application/json' \
@@ -9,7 +11,7 @@ export class HasuraIndexTarget extends PostgresIndexTarget {
   --data '{
 	"type": "run_sql",
 	"args": {
-		"sql": "${this.toAlterAddSQL()}"
+		"sql": ${sql}
 	}
 }'`;
   }
diff --git a/client/src/models/IndexTarget.ts b/client/src/models/IndexTarget.ts
index e6a5f03..a9ba190 100644
--- a/client/src/models/IndexTarget.ts
+++ b/client/src/models/IndexTarget.ts
@@ -16,9 +16,15 @@ export class IndexTarget {
   }
 
   toAlterAddSQL(): string {
-    const columns = this.columns.map((v) => v.name).join(", ");
+    const columns = this.columns.map((v) => this.quoteName(v.name)).join(", ");
+
+    return `ALTER TABLE ${this.quoteName(
+      this.tableName
+    )} ADD INDEX (${columns});`;
+  }
 
-    return `ALTER TABLE ${this.tableName} ADD INDEX (${columns});`;
+  protected quoteName(name: string): string {
+    return "`" + name.replace(/`/g, "``") + "`";
   }
 
   toExecutableText(): string {
diff --git a/client/src/models/PostgresIndexTarget.ts b/client/src/models/PostgresIndexTarget.ts
index faf57ec..7daab0b 100644
--- a/client/src/models/PostgresIndexTarget.ts
+++ b/client/src/models/PostgresIndexTarget.ts
@@ -2,8 +2,12 @@ import { IndexTarget } from "@/models/IndexTarget";
 
 export class PostgresIndexTarget extends IndexTarget {
   toAlterAddSQL(): string {
-    const columns = this.columns.map((v) => v.name).join(", ");
+    const columns = this.columns.map((v) => this.quoteName(v.name)).join(", ");
 
-    return `CREATE INDEX ON ${this.tableName} (${columns});`;
+    return `CREATE INDEX ON ${this.quoteName(this.tableName)} (${columns});`;
+  }
+
+  protected quoteName(name: string): string {
+    return `"${name.replace(/"/g, '""')}"`;
   }
 }
-- 
2.43.0


From 77c83f2fe0511f04cbccb8966853f0f2b0dd342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:05 +0000
Subject: [PATCH 42/48] fix: the commands the pages propose name the sub
 command and quote what the shell would read

---
 client/src/lib/Shell.ts                                     | 2 ++
 client/src/models/IndexTarget.ts                            | 3 ++-
 .../src/pages/dig/performance_insights/util/CommandText.ts  | 6 +++++-
 3 files changed, 9 insertions(+), 2 deletions(-)
 create mode 100644 client/src/lib/Shell.ts

diff --git a/client/src/lib/Shell.ts b/client/src/lib/Shell.ts
new file mode 100644
index 0000000..c5e6f66
--- /dev/null
+++ b/client/src/lib/Shell.ts
@@ -0,0 +1,2 @@
+export const quoteForShell = (text: string): string =>
+  `"${text.replace(/(["$`\\])/g, "\\$1")}"`;
diff --git a/client/src/models/IndexTarget.ts b/client/src/models/IndexTarget.ts
index a9ba190..51a2519 100644
--- a/client/src/models/IndexTarget.ts
+++ b/client/src/models/IndexTarget.ts
@@ -1,5 +1,6 @@
 import { IndexColumn } from "./IndexColumn";
 import { Type } from "class-transformer";
+import { quoteForShell } from "@/lib/Shell";
 
 export class IndexTarget {
   tableName: string;
@@ -12,7 +13,7 @@ export class IndexTarget {
   }
 
   toGrIndexOption(): string {
-    return `"${this.tableName}:${this.toGrColumnOption()}"`;
+    return quoteForShell(`${this.tableName}:${this.toGrColumnOption()}`);
   }
 
   toAlterAddSQL(): string {
diff --git a/client/src/pages/dig/performance_insights/util/CommandText.ts b/client/src/pages/dig/performance_insights/util/CommandText.ts
index 74f1759..da73408 100644
--- a/client/src/pages/dig/performance_insights/util/CommandText.ts
+++ b/client/src/pages/dig/performance_insights/util/CommandText.ts
@@ -1,6 +1,10 @@
+import { quoteForShell } from "@/lib/Shell";
+
 export const buildCommandText = (dbName: string, sql: string): string => {
   const db = dbName ?? "...";
   const query = sql ?? "...";
 
-  return `DB_DATABASE="${db}" gr db suggest -o "suggest.html" \\\n\t-q "${query}"`;
+  return `DB_DATABASE=${quoteForShell(
+    db
+  )} gr db suggest mysql -o "suggest.html" \\\n\t-q ${quoteForShell(query)}`;
 };
-- 
2.43.0


From 93cea56e4d03a60195430d22e76c4d17f0b37f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:47 +0000
Subject: [PATCH 43/48] fix: the points before a statement's first load stand
 at their own hours in the timeline

---
 .../performance_insights/util/chart/LoadPropChartSereies.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/src/pages/dig/performance_insights/util/chart/LoadPropChartSereies.ts b/client/src/pages/dig/performance_insights/util/chart/LoadPropChartSereies.ts
index 5817b00..627f738 100644
--- a/client/src/pages/dig/performance_insights/util/chart/LoadPropChartSereies.ts
+++ b/client/src/pages/dig/performance_insights/util/chart/LoadPropChartSereies.ts
@@ -34,10 +34,10 @@ export const createLoadPropChartSeries = <T>(
           const seriesData = {
             database: dbLoad.name,
             name: loadOfSql.sql,
-            data: Array(i).fill({
-              x: timeDbLoad.date,
+            data: dbLoads.slice(0, i).map((l) => ({
+              x: l.date,
               y: 0,
-            }),
+            })),
           };
           dbSeries[loadOfSql.sql] = seriesData;
           series.push(seriesData);
-- 
2.43.0


From 0889e2a39dbb702397b63f35324aeb1923e0a6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:47 +0000
Subject: [PATCH 44/48] fix: clicking a tokenized statement without plain ones
 says so instead of breaking the page

---
 .../pages/dig/performance_insights/util/chart/TokenizedLoad.ts  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/pages/dig/performance_insights/util/chart/TokenizedLoad.ts b/client/src/pages/dig/performance_insights/util/chart/TokenizedLoad.ts
index eb22fb5..ad720e6 100644
--- a/client/src/pages/dig/performance_insights/util/chart/TokenizedLoad.ts
+++ b/client/src/pages/dig/performance_insights/util/chart/TokenizedLoad.ts
@@ -35,7 +35,7 @@ export const pickRawLoads = (
   size: number,
   tokenizedId: string
 ): RawLoadOfSql[] => {
-  const loads = rawLoads[tokenizedId];
+  const loads = rawLoads[tokenizedId] ?? [];
   const sortedLoads = [...loads].sort(
     (l1, l2) => l2.load.loadMax - l1.load.loadMax
   );
-- 
2.43.0


From a17f625bbb92981749dd87dad359497715e6afc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:53 +0000
Subject: [PATCH 45/48] fix: links to traces keep the path of the Jaeger UI's
 address, and an odd address does not break the page

---
 client/src/pages/dig/jaeger/TracesTable.svelte | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/pages/dig/jaeger/TracesTable.svelte b/client/src/pages/dig/jaeger/TracesTable.svelte
index 03aadf1..68ab6ce 100644
--- a/client/src/pages/dig/jaeger/TracesTable.svelte
+++ b/client/src/pages/dig/jaeger/TracesTable.svelte
@@ -57,7 +57,7 @@
         </td>
         <td
           ><a
-            href={new URL(`/trace/${traceTree.traceId}`, uiPath).href}
+            href={`${uiPath.replace(/\/+$/, "")}/trace/${traceTree.traceId}`}
             target="_blank"
             rel="noopener noreferrer">Open detail</a
           ></td
-- 
2.43.0


From e17c7c340ab519bd3e69f46fd26480efc17ce357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:32 +0000
Subject: [PATCH 46/48] fix: do not take a table of public for the search
 path's table of the same name

---
 database/postgres/pservice/parser/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/index.go b/database/postgres/pservice/parser/index.go
index af722fe..1888405 100644
--- a/database/postgres/pservice/parser/index.go
+++ b/database/postgres/pservice/parser/index.go
@@ -18,7 +18,7 @@ func ListPossibleIndexes(db *postgres.DB, schema string, stmt *parser.Statement)
 		return nil, []error{err}
 	}
 
-	scopes, errs := CollectStmtScopes(stmt, "public")
+	scopes, errs := CollectStmtScopes(stmt, schema)
 	if len(errs) > 0 {
 		return nil, errs
 	}
-- 
2.43.0


From 6b5cf1b784e8e21212dbd060ef8749e0d4697f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:42 +0000
Subject: [PATCH 47/48] fix: do not show the address of Hasura, which can hold
 a password, when it cannot be used

---
 infra/hasura/config.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/infra/hasura/config.go b/infra/hasura/config.go
index aa5dc82..f6adb96 100644
--- a/infra/hasura/config.go
+++ b/infra/hasura/config.go
@@ -1,7 +1,6 @@
 package hasura
 
 import (
-	"fmt"
 	"github.com/mrasu/GravityR/lib"
 	"github.com/pkg/errors"
 	"net/url"
@@ -19,7 +18,12 @@ func NewConfigFromEnv() (*Config, error) {
 	}
 	uu, err := url.Parse(u)
 	if err != nil {
-		return nil, errors.Wrap(err, fmt.Sprintf("cannot parse URL for Hasura: %s", u))
+		// Show neither the URL nor the cause because they can hold a password
+		return nil, errors.New("cannot parse URL for Hasura")
+	}
+	if uu.Host == "" || (uu.Scheme != "http" && uu.Scheme != "https") {
+		// url.URL cannot find, and hide, a password when URL is not absolute
+		return nil, errors.New("URL for Hasura should start with http:// or https://")
 	}
 
 	s, err := lib.GetEnv("HASURA_ADMIN_SECRET")
-- 
2.43.0


From 592be67a1881f1fb65049be891a1e6a74ad5ef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 48/48] fix: log in to MySQL with usernames and databases which
 DSN cannot hold

---
 infra/mysql/config.go | 15 +++++++++++++++
 infra/mysql/db.go     | 10 +++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/infra/mysql/config.go b/infra/mysql/config.go
index 94c4656..c4a8f60 100644
--- a/infra/mysql/config.go
+++ b/infra/mysql/config.go
@@ -54,6 +54,21 @@ func (cfg *Config) ToDSN() string {
 	return dsn
 }
 
+// toDriverConfig returns the driver's config.
+// Login and database are set without DSN because DSN cannot hold all characters of them (e.g. ":" of username)
+func (cfg *Config) toDriverConfig() (*mysql.Config, error) {
+	addressCfg := cfg.config.Clone()
+	addressCfg.User, addressCfg.Passwd, addressCfg.DBName = "", "", ""
+
+	dCfg, err := mysql.ParseDSN((&Config{config: addressCfg, paramText: cfg.paramText}).ToDSN())
+	if err != nil {
+		return nil, err
+	}
+	dCfg.User, dCfg.Passwd, dCfg.DBName = cfg.config.User, cfg.config.Passwd, cfg.config.DBName
+
+	return dCfg, nil
+}
+
 func (cfg *Config) GetDBName() string {
 	return cfg.config.DBName
 }
diff --git a/infra/mysql/db.go b/infra/mysql/db.go
index 23779a4..08eb3f2 100644
--- a/infra/mysql/db.go
+++ b/infra/mysql/db.go
@@ -3,6 +3,7 @@ package mysql
 import (
 	"database/sql"
 	"fmt"
+	"github.com/go-sql-driver/mysql"
 	"github.com/jmoiron/sqlx"
 	"github.com/pkg/errors"
 	"time"
@@ -13,12 +14,15 @@ type DB struct {
 }
 
 func OpenMySQLDB(cfg *Config) (*DB, error) {
-	dsn := cfg.ToDSN()
-
-	db, err := sqlx.Open("mysql", dsn)
+	dCfg, err := cfg.toDriverConfig()
+	if err != nil {
+		return nil, errors.Wrap(err, "failed to connect")
+	}
+	connector, err := mysql.NewConnector(dCfg)
 	if err != nil {
 		return nil, errors.Wrap(err, "failed to connect")
 	}
+	db := sqlx.NewDb(sql.OpenDB(connector), "mysql")
 
 	db.SetConnMaxLifetime(time.Minute * 3)
 	db.SetMaxOpenConns(10)
-- 
2.43.0

