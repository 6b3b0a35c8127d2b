From d3b346ac048dbb95f73e7853b704cb2456eb9944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:25 +0000
Subject: [PATCH 01/60] fix: report no index candidates instead of failing when
 a query has none

---
 database/dservice/existing_index_remover.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/database/dservice/existing_index_remover.go b/database/dservice/existing_index_remover.go
index 42c7da6..09abde6 100644
--- a/database/dservice/existing_index_remover.go
+++ b/database/dservice/existing_index_remover.go
@@ -25,6 +25,9 @@ func NewExistingIndexRemover(idxGetter IndexGetter, dbName string, its []*dmodel
 
 func (r *ExistingIndexRemover) Remove() ([]*dmodel.IndexTarget, error) {
 	idxTargets := lo.Uniq(r.idxTargets)
+	if len(idxTargets) == 0 {
+		return idxTargets, nil
+	}
 
 	tNames := lo.Map(idxTargets, func(it *dmodel.IndexTarget, _ int) string { return it.TableName })
 	tNames = lo.Uniq(tNames)
-- 
2.43.0


From 13ed547a5d932a27a967c9f5a1a2f2a04ed1491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:50 +0000
Subject: [PATCH 02/60] fix: treat GraphQL errors in a 200 response from Hasura
 as a failed query

---
 infra/hasura/client.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/infra/hasura/client.go b/infra/hasura/client.go
index 8ddf7b7..b56a19b 100644
--- a/infra/hasura/client.go
+++ b/infra/hasura/client.go
@@ -37,10 +37,22 @@ func (c *Client) QueryWithoutResult(query string, variables map[string]interface
 		"query":     query,
 		"variables": variables,
 	}
-	_, err := c.post(graphqlPath, body)
+	res, err := c.post(graphqlPath, body)
 	if err != nil {
 		return errors.Wrap(err, "query for GraphQL failed")
 	}
+
+	// Hasura returns errors with Status=200
+	var qres struct {
+		Errors []json.RawMessage `json:"errors"`
+	}
+	err = json.Unmarshal(res, &qres)
+	if err != nil {
+		return errors.Wrap(err, "failed to decode response from Hasura")
+	}
+	if len(qres.Errors) > 0 {
+		return errors.Errorf("query for GraphQL failed: %s", string(qres.Errors[0]))
+	}
 	return nil
 }
 
-- 
2.43.0


From 46e0dd90466d564b7fbd6f99408b0755cd0c6f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:53 +0000
Subject: [PATCH 03/60] fix: keep every table of a comma separated FROM for
 PostgreSQL

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 409ecb2..50c8fac 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -92,7 +92,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 			sc.errors = append(sc.errors, err)
 		}
 
-		scope.Tables = tables
+		scope.Tables = append(scope.Tables, tables...)
 		foundFields = append(foundFields, fields...)
 	}
 	if stmt.Where != nil {
-- 
2.43.0


From 0e6aecb02cb8fb1179b6e0ae38117c89c95edde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:56 +0000
Subject: [PATCH 04/60] fix: return error for UNION, VALUES and parenthesized
 SELECT instead of panic

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 50c8fac..4487cf4 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -68,6 +68,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 
 	stmt, ok := selectNode.Select.(*tree.SelectClause)
 	if !ok {
+		sc.errors = append(sc.errors, lib.NewUnsupportedError("not supporting UNION, VALUES, parenthesized SELECT etc."))
 		return false
 	}
 
@@ -167,7 +168,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 }
 
 func (sc *scopeCollector) Leave(node interface{}) bool {
-	if sc.scopeStack.Top().node == node {
+	if top := sc.scopeStack.Top(); top != nil && top.node == node {
 		sc.scopeStack.Pop()
 	}
 
-- 
2.43.0


From b668e95dbc4ba79b955c6c1eb4b65f78926598e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:00 +0000
Subject: [PATCH 05/60] fix: accept window frame having start bound only

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 4487cf4..9342c1a 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -393,8 +393,11 @@ func (sc *scopeCollector) collectExprReferences(expr tree.Expr, defaultType dpar
 				res = append(res, sc.collectExprReferences(o.Expr, defaultType)...)
 			}
 			if frame := e.WindowDef.Frame; frame != nil {
-				res = append(res, sc.collectExprReferences(frame.Bounds.StartBound.OffsetExpr, defaultType)...)
-				res = append(res, sc.collectExprReferences(frame.Bounds.EndBound.OffsetExpr, defaultType)...)
+				for _, bound := range []*tree.WindowFrameBound{frame.Bounds.StartBound, frame.Bounds.EndBound} {
+					if bound != nil {
+						res = append(res, sc.collectExprReferences(bound.OffsetExpr, defaultType)...)
+					}
+				}
 			}
 		}
 
-- 
2.43.0


From b082988a4d389bc0d84655a43ca2286117c02348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:03 +0000
Subject: [PATCH 06/60] fix: return error for query without statement instead
 of panic

---
 database/mysql/mservice/parse.go    | 4 ++++
 database/postgres/pservice/parse.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/database/mysql/mservice/parse.go b/database/mysql/mservice/parse.go
index 82b8d4a..aafd730 100644
--- a/database/mysql/mservice/parse.go
+++ b/database/mysql/mservice/parse.go
@@ -3,6 +3,7 @@ package mservice
 import (
 	"github.com/pingcap/tidb/parser"
 	"github.com/pingcap/tidb/parser/ast"
+	"github.com/pkg/errors"
 )
 
 func Parse(p *parser.Parser, query string) (ast.StmtNode, error) {
@@ -10,6 +11,9 @@ func Parse(p *parser.Parser, query string) (ast.StmtNode, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(stmtNodes) == 0 {
+		return nil, errors.New("no statement found in query")
+	}
 
 	return stmtNodes[0], nil
 }
diff --git a/database/postgres/pservice/parse.go b/database/postgres/pservice/parse.go
index 5018253..9d8a104 100644
--- a/database/postgres/pservice/parse.go
+++ b/database/postgres/pservice/parse.go
@@ -11,6 +11,9 @@ func Parse(query string) (*parser.Statement, error) {
 		return nil, errors.Wrap(err, "failed to parse sql")
 	}
 
+	if len(stmts) == 0 {
+		return nil, errors.New("no statement found in query")
+	}
 	if len(stmts) > 1 {
 		return nil, errors.New("not supporting query having multiple statements")
 	}
-- 
2.43.0


From 265880bb6aafc1ca81ca68c767844f7d1acfd360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:21 +0000
Subject: [PATCH 07/60] fix: do not resolve columns with the output of subquery
 inside fields

---
 database/dservice/dparser/build_table_fields.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 2be983a..51c4d3f 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -59,12 +59,13 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 	visibleCols := info.getVisibleColumns()
 	for _, s := range scope.FieldScopes {
 		childInfo := info.createChild(s, visibleCols)
-		cols, newFieldColumns, err := tfb.calculateReferences(childInfo)
+		_, newFieldColumns, err := tfb.calculateReferences(childInfo)
 		if err != nil {
 			return nil, nil, err
 		}
 
-		info.addSubqueryInfo(s.Name, s.Name, cols, newFieldColumns)
+		// only FROM's subquery exposes its columns
+		info.addReferencingFields(newFieldColumns)
 	}
 
 	var outputCols []*outputCol
-- 
2.43.0


From c06f5fdebb4cef45e08e270158cf4862244b8b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:25 +0000
Subject: [PATCH 08/60] fix: do not treat columns in WHERE or ON as output of
 subquery

---
 database/dservice/dparser/build_table_fields.go |  2 +-
 database/dservice/dparser/field.go              | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 51c4d3f..a363514 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -92,7 +92,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 		}
 
 		n := f.Name()
-		if n != "" {
+		if n != "" && !f.isCondition() {
 			outputCols = append(outputCols, &outputCol{name: n, referencingColumns: allColInfos})
 		}
 	}
diff --git a/database/dservice/dparser/field.go b/database/dservice/dparser/field.go
index 176faab..1c9732b 100644
--- a/database/dservice/dparser/field.go
+++ b/database/dservice/dparser/field.go
@@ -14,3 +14,13 @@ func (f *Field) Name() string {
 
 	return ""
 }
+
+func (f *Field) isCondition() bool {
+	for _, c := range f.Columns {
+		if c.Type == FieldCondition {
+			return true
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From 489d73f07a29a878767e776d9cdb6619f4195692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:08 +0000
Subject: [PATCH 09/60] fix: resolve columns of every outer query from nested
 subquery, inner one first

---
 .../dservice/dparser/build_table_fields.go    | 60 ++++++++++---------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index a363514..e385ea6 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -23,7 +23,7 @@ type tableFieldsBuilder struct{}
 
 func buildTableFields(dbTables map[string]*TableSchema, scope *StmtScope) (tableFieldColumns, error) {
 	tfb := &tableFieldsBuilder{}
-	info := newScopeInfo(dbTables, scope, tableOutputCols{})
+	info := newScopeInfo(dbTables, scope, nil)
 	_, tableFields, err := tfb.calculateReferences(info)
 	if err != nil {
 		return nil, err
@@ -44,7 +44,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 
 		t := tableMap[s.Name]
 		if t.IsLateral {
-			subScopeVisibleCols = lo.Assign(info.originalExternalCols, info.getVisibleColumns())
+			subScopeVisibleCols = info.getVisibleColumnLevels()
 		}
 
 		childInfo := info.createChild(s, subScopeVisibleCols)
@@ -56,7 +56,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 		info.addSubqueryInfo(s.Name, t.AsOrName(), cols, newFieldCols)
 	}
 
-	visibleCols := info.getVisibleColumns()
+	visibleCols := info.getVisibleColumnLevels()
 	for _, s := range scope.FieldScopes {
 		childInfo := info.createChild(s, visibleCols)
 		_, newFieldColumns, err := tfb.calculateReferences(childInfo)
@@ -110,7 +110,7 @@ type scopeInfo struct {
 	dbTables map[string]*TableSchema
 
 	scope                *StmtScope
-	originalExternalCols tableOutputCols
+	originalExternalCols []tableOutputCols
 
 	referencingFields tableFieldColumns
 
@@ -119,7 +119,7 @@ type scopeInfo struct {
 	starTables *lib.Set[string]
 }
 
-func newScopeInfo(dbTables map[string]*TableSchema, scope *StmtScope, externalCols tableOutputCols) *scopeInfo {
+func newScopeInfo(dbTables map[string]*TableSchema, scope *StmtScope, externalCols []tableOutputCols) *scopeInfo {
 	referencingColumns := buildReferencingColumns(dbTables, scope.Tables)
 	refTables := newRefTables(referencingColumns, scope.Tables, externalCols)
 
@@ -154,7 +154,7 @@ func buildReferencingColumns(dbTables map[string]*TableSchema, tables []*Table)
 	return res
 }
 
-func (si *scopeInfo) createChild(childScope *StmtScope, externalCols tableOutputCols) *scopeInfo {
+func (si *scopeInfo) createChild(childScope *StmtScope, externalCols []tableOutputCols) *scopeInfo {
 	return newScopeInfo(si.dbTables, childScope, externalCols)
 }
 
@@ -246,20 +246,26 @@ func (si *scopeInfo) getVisibleColumns() tableOutputCols {
 	return res
 }
 
+// getVisibleColumnLevels returns columns visible from correlated subqueries. Inner scope comes first.
+func (si *scopeInfo) getVisibleColumnLevels() []tableOutputCols {
+	return append([]tableOutputCols{si.getVisibleColumns()}, si.originalExternalCols...)
+}
+
 type refTables struct {
 	internalCols tableOutputCols
-	externalCols tableOutputCols
+	externalCols []tableOutputCols
 
 	asToName        map[string]string
 	subqueryAsNames *lib.Set[string]
 }
 
-func newRefTables(referencingColumns tableOutputCols, tables []*Table, externalCols tableOutputCols) *refTables {
+func newRefTables(referencingColumns tableOutputCols, tables []*Table, externalCols []tableOutputCols) *refTables {
 	asToName := map[string]string{}
 	subqueryAsNames := lib.NewSet[string]()
-	for tName := range externalCols {
-		asToName[tName] = tName
-		subqueryAsNames.Add(tName)
+	for _, cols := range externalCols {
+		for tName := range cols {
+			subqueryAsNames.Add(tName)
+		}
 	}
 	for _, t := range tables {
 		asToName[t.AsOrName()] = t.Name
@@ -279,25 +285,19 @@ func (t *refTables) addSubquery(name, asName string, cols []*outputCol) {
 	t.subqueryAsNames.Add(asName)
 }
 
-func (t *refTables) getTableColsFromName(name string) ([]*outputCol, error) {
-	if cols, ok := t.internalCols[name]; ok {
-		return cols, nil
-	}
-	res, ok := t.externalCols[name]
-	if !ok {
-		return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", name))
-	}
-
-	return res, nil
-}
-
 func (t *refTables) getTableColsFromAsName(asName string) ([]*outputCol, error) {
-	name, ok := t.asToName[asName]
-	if !ok {
-		return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", asName))
+	if name, ok := t.asToName[asName]; ok {
+		if cols, ok := t.internalCols[name]; ok {
+			return cols, nil
+		}
+	}
+	for _, cols := range t.externalCols {
+		if res, ok := cols[asName]; ok {
+			return res, nil
+		}
 	}
 
-	return t.getTableColsFromName(name)
+	return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", asName))
 }
 
 func (t *refTables) getReferencingColumnInfos(c *FieldColumn) ([]*columnInfo, error) {
@@ -319,8 +319,10 @@ func (t *refTables) getColumnInfos(colName string) ([]*columnInfo, error) {
 	if cols, ok := t.getColumnInfosFromTableOutputCols(t.internalCols, colName); ok {
 		return cols, nil
 	}
-	if cols, ok := t.getColumnInfosFromTableOutputCols(t.externalCols, colName); ok {
-		return cols, nil
+	for _, externalCols := range t.externalCols {
+		if cols, ok := t.getColumnInfosFromTableOutputCols(externalCols, colName); ok {
+			return cols, nil
+		}
 	}
 
 	if t.subqueryAsNames.Contains(colName) {
-- 
2.43.0


From 16201ca138be430b2292c6d648fc7a33b8bfd17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:21 +0000
Subject: [PATCH 10/60] fix: enumerate index columns without permuting
 referenced columns

---
 .../dservice/dparser/index_target_builder.go  | 51 +++++++++----------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/database/dservice/dparser/index_target_builder.go b/database/dservice/dparser/index_target_builder.go
index 7f7f653..ff596d7 100644
--- a/database/dservice/dparser/index_target_builder.go
+++ b/database/dservice/dparser/index_target_builder.go
@@ -71,44 +71,39 @@ func (itb *IndexTargetBuilder) buildIndexComposition(fieldColumns *lib.Set[*Fiel
 }
 
 func (itb *IndexTargetBuilder) extractEfficientIndexes(fieldColumns *lib.Set[*FieldColumn]) []index {
-	compositions := itb.compositeFieldColumns(fieldColumns)
-
-	var efficientIndexFields []index
-	for _, fields := range compositions {
-		for i := 0; i < len(fields); i++ {
-			if fields[i].Type != FieldReference {
-				continue
-			}
-
-			if len(fields) != fieldColumns.Count() {
-				goto next
-			}
+	conditions := lib.NewSet[*FieldColumn]()
+	var references index
+	for _, fc := range fieldColumns.Values() {
+		if fc.Type == FieldCondition {
+			conditions.Add(fc)
+		} else if fc.Type == FieldReference {
+			references = append(references, &IndexField{Name: fc.Name, Type: fc.Type})
+		}
+	}
 
-			for j := i + 1; j < len(fields); j++ {
-				if fields[j].Type != FieldReference {
-					goto next
-				}
+	indexes := itb.compositeFieldColumns(conditions)
+	if len(references) == 0 || conditions.Count()+len(references) != fieldColumns.Count() {
+		return indexes
+	}
 
-				// pick ordered fields only to avoid duplicating index
-				if fields[j-1].Name > fields[j].Name {
-					goto next
-				}
-			}
+	// Reference fields are efficient only when they are at the tail of the index covering all fields.
+	// Pick ordered one only to avoid duplicating index
+	lib.Sort(references, func(f *IndexField) string { return f.Name })
+	if conditions.Count() == 0 {
+		return []index{references}
+	}
+	for _, fields := range indexes {
+		if len(fields) == conditions.Count() {
+			indexes = append(indexes, append(fields[:len(fields):len(fields)], references...))
 		}
-		efficientIndexFields = append(efficientIndexFields, fields)
-	next:
 	}
 
-	return efficientIndexFields
+	return indexes
 }
 
 func (itb *IndexTargetBuilder) compositeFieldColumns(fColumns *lib.Set[*FieldColumn]) []index {
 	var compositions []index
 	for _, fc := range fColumns.Values() {
-		if !(fc.Type == FieldReference || fc.Type == FieldCondition) {
-			continue
-		}
-
 		fColumns.Delete(fc)
 		res2 := itb.compositeFieldColumns(fColumns)
 		fColumns.Add(fc)
-- 
2.43.0


From c2fba6f621124ba2429b90a9e59dabc00785c1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:25 +0000
Subject: [PATCH 11/60] fix: find MySQL columns having upper case letters in
 their names

---
 database/mysql/mservice/parser/collect_table_schemas.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database/mysql/mservice/parser/collect_table_schemas.go b/database/mysql/mservice/parser/collect_table_schemas.go
index bc87b80..27f2074 100644
--- a/database/mysql/mservice/parser/collect_table_schemas.go
+++ b/database/mysql/mservice/parser/collect_table_schemas.go
@@ -6,6 +6,7 @@ import (
 	"github.com/mrasu/GravityR/infra/mysql"
 	"github.com/mrasu/GravityR/lib"
 	"github.com/rs/zerolog/log"
+	"strings"
 )
 
 func CollectTableSchemas(db *mysql.DB, dbName string, tables []string) ([]*dparser.TableSchema, error) {
@@ -15,7 +16,8 @@ func CollectTableSchemas(db *mysql.DB, dbName string, tables []string) ([]*dpars
 	}
 
 	schemas := dparser.CreateTableSchemas(tables, cols, func(c *mysql.ColumnInfo) (string, string, bool) {
-		return c.TableName, c.ColumnName, c.ColumnKey == "PRI"
+		// names in the parsed query are lower-cased as column names are case-insensitive in MySQL
+		return c.TableName, strings.ToLower(c.ColumnName), c.ColumnKey == "PRI"
 	})
 
 	for i, table := range tables {
-- 
2.43.0


From b94c111d288424c152a8e1a7c301c0dbe3f854a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:39 +0000
Subject: [PATCH 12/60] fix: reject index text having line breaks instead of
 ignoring a part of it

---
 database/dmodel/index_target.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/dmodel/index_target.go b/database/dmodel/index_target.go
index 7bee1eb..6b42436 100644
--- a/database/dmodel/index_target.go
+++ b/database/dmodel/index_target.go
@@ -15,7 +15,7 @@ type IndexTarget struct {
 	Columns   []*IndexColumn
 }
 
-var indexTargetReg = regexp.MustCompile(`(.+?):((.+?(\+)?)+)`)
+var indexTargetReg = regexp.MustCompile(`(?s)\A(.+?):((.+?(\+)?)+)\z`)
 var wordOnlyReg = regexp.MustCompile(`\A\w+\z`)
 
 const indexTargetColumnSeparator = "+"
-- 
2.43.0


From 5c4bd009171d9f642f656a7c7e39b011b006dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:53 +0000
Subject: [PATCH 13/60] fix: expose constant columns of a subquery to the outer
 query

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 9342c1a..88a714c 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -155,7 +155,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 	}
 
 	for _, f := range foundFields {
-		if len(f.Columns) > 0 {
+		if len(f.Columns) > 0 || f.AsName != "" {
 			scope.Fields = append(scope.Fields, f)
 		}
 	}
-- 
2.43.0


From 99c593a2dddef204a2170b6d2680c4c220d13c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:43 +0000
Subject: [PATCH 14/60] fix: accept output alias in GROUP BY, HAVING and ORDER
 BY

---
 database/dservice/dparser/build_table_fields.go       | 9 +++++++++
 database/mysql/mservice/parser/collect_stmt_scopes.go | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index e385ea6..8280e26 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -176,6 +176,11 @@ func (si *scopeInfo) getColumnReferenceColumnInfos(c *FieldColumn) ([]*columnInf
 	if c.Table == "" {
 		cols, err := si.refTables.getColumnInfos(c.Name)
 		if err != nil {
+			if c.Type == FieldReference && si.isOutputAlias(c.Name) {
+				// ignore alias of output as columns in the output are collected separately
+				// e.g.) SELECT age + 1 AS next_age FROM users ORDER BY next_age
+				return nil, nil
+			}
 			return nil, err
 		}
 
@@ -185,6 +190,10 @@ func (si *scopeInfo) getColumnReferenceColumnInfos(c *FieldColumn) ([]*columnInf
 	return si.refTables.getReferencingColumnInfos(c)
 }
 
+func (si *scopeInfo) isOutputAlias(name string) bool {
+	return lo.ContainsBy(si.scope.Fields, func(f *Field) bool { return f.AsName == name })
+}
+
 func (si *scopeInfo) addReferencingFields(newFieldColumns tableFieldColumns) {
 	for tName, cols := range newFieldColumns {
 		for _, col := range cols {
diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index fdbe560..c01a5ea 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -133,7 +133,7 @@ func (sc *scopeCollector) Enter(in ast.Node) (ast.Node, bool) {
 	}
 
 	for _, f := range foundFields {
-		if len(f.Columns) > 0 {
+		if len(f.Columns) > 0 || f.AsName != "" {
 			scope.Fields = append(scope.Fields, f)
 		}
 	}
-- 
2.43.0


From ed0b0b865b5208bd8a8d17c78c01648cc9e69861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:36 +0000
Subject: [PATCH 15/60] fix: collect columns in DISTINCT ON

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 88a714c..ead69a5 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -104,6 +104,14 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 			sc.errors = append(sc.errors, err)
 		}
 	}
+	for _, d := range stmt.DistinctOn {
+		f, err := sc.createFieldFromExpr(d, dparser.FieldReference)
+		if err == nil {
+			foundFields = append(foundFields, f)
+		} else {
+			sc.errors = append(sc.errors, err)
+		}
+	}
 	if stmt.GroupBy != nil {
 		for _, g := range stmt.GroupBy {
 			f, err := sc.createFieldFromExpr(g, dparser.FieldReference)
-- 
2.43.0


From 58fdec7c6acb16934653be6c4bea72ba10ffb03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:29 +0000
Subject: [PATCH 16/60] fix: visit ORDER BY of functions and OFFSET to find
 subqueries

---
 database/postgres/pservice/ast/ast_walker.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/database/postgres/pservice/ast/ast_walker.go b/database/postgres/pservice/ast/ast_walker.go
index a07fe32..08a320b 100644
--- a/database/postgres/pservice/ast/ast_walker.go
+++ b/database/postgres/pservice/ast/ast_walker.go
@@ -130,6 +130,9 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 					walk(node.WindowDef)
 				}
 				walk(node.Exprs, node.Filter)
+				if node.OrderBy != nil {
+					walk(node.OrderBy)
+				}
 			case *tree.IndexTableDef:
 			case *tree.JoinTableExpr:
 				walk(node.Left, node.Right, node.Cond)
@@ -166,7 +169,7 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 				}
 				walk(node.Select)
 			case *tree.Limit:
-				walk(node.Count)
+				walk(node.Count, node.Offset)
 			case *tree.SelectClause:
 				walk(node.Exprs)
 				if node.Where != nil {
@@ -227,6 +230,9 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 				}
 			case *tree.WindowDef:
 				walk(node.Partitions)
+				if node.OrderBy != nil {
+					walk(node.OrderBy)
+				}
 				if node.Frame != nil {
 					walk(node.Frame)
 				}
-- 
2.43.0


From 4f1bfd9a3d7635d36402b946838b56a510634efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:42 +0000
Subject: [PATCH 17/60] fix: collect columns having COLLATE for MySQL

---
 database/mysql/mservice/parser/collect_stmt_scopes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index c01a5ea..63f046e 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -244,7 +244,7 @@ func (sc *scopeCollector) collectExprReferences(expr ast.ExprNode, defaultType d
 			res = append(res, &dparser.FieldColumn{Table: c.Table.L, Name: c.Name.L, Type: defaultType})
 		}
 	case *ast.SetCollationExpr:
-		// do nothing as COLLATE doesn't relate to table's column
+		res = append(res, sc.collectExprReferences(e.Expr, defaultType)...)
 	case *ast.FuncCallExpr:
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
-- 
2.43.0


From 4ad101f3a2f786fab32c53b93a1397e43b4810d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:54 +0000
Subject: [PATCH 18/60] fix: collect columns in ORDER BY of GROUP_CONCAT for
 MySQL

---
 database/mysql/mservice/parser/collect_stmt_scopes.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index 63f046e..cf34879 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -258,6 +258,11 @@ func (sc *scopeCollector) collectExprReferences(expr ast.ExprNode, defaultType d
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
 		}
+		if e.Order != nil {
+			for _, i := range e.Order.Items {
+				res = append(res, sc.collectExprReferences(i.Expr, defaultType)...)
+			}
+		}
 	case *ast.WindowFuncExpr:
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
-- 
2.43.0


From 42fa128871ff2ebc77d91b30761c43b2abde4087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:19 +0000
Subject: [PATCH 19/60] fix: accept functional indexes of MySQL

---
 infra/mysql/index_info.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/infra/mysql/index_info.go b/infra/mysql/index_info.go
index 14c4b46..ae64ec5 100644
--- a/infra/mysql/index_info.go
+++ b/infra/mysql/index_info.go
@@ -1,5 +1,7 @@
 package mysql
 
+import "database/sql"
+
 const indexFetchQuery = `
 SELECT
 	TABLE_NAME,
@@ -20,9 +22,10 @@ type IndexInfo struct {
 }
 
 type flatIndexInfo struct {
-	TableName  string `db:"TABLE_NAME"`
-	IndexName  string `db:"INDEX_NAME"`
-	ColumnName string `db:"COLUMN_NAME"`
+	TableName string `db:"TABLE_NAME"`
+	IndexName string `db:"INDEX_NAME"`
+	// ColumnName is NULL for functional index
+	ColumnName sql.NullString `db:"COLUMN_NAME"`
 }
 
 func toIndexInfo(orderedFlatInfo []*flatIndexInfo) []*IndexInfo {
@@ -33,11 +36,11 @@ func toIndexInfo(orderedFlatInfo []*flatIndexInfo) []*IndexInfo {
 	for _, flatInfo := range orderedFlatInfo {
 		if lastTName == flatInfo.TableName && lastIName == flatInfo.IndexName {
 			idx := infos[len(infos)-1]
-			idx.Columns = append(idx.Columns, flatInfo.ColumnName)
+			idx.Columns = append(idx.Columns, flatInfo.ColumnName.String)
 		} else {
 			infos = append(infos, &IndexInfo{
 				TableName: flatInfo.TableName,
-				Columns:   []string{flatInfo.ColumnName},
+				Columns:   []string{flatInfo.ColumnName.String},
 			})
 		}
 
-- 
2.43.0


From 7da066d11cfe69d80cc20a9024c890be72265a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:23 +0000
Subject: [PATCH 20/60] fix: recognize existing indexes on quoted columns of
 PostgreSQL

---
 infra/hasura/index_info.go   |  3 ++-
 infra/postgres/index_info.go |  3 ++-
 lib/identifier.go            | 18 ++++++++++++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)
 create mode 100644 lib/identifier.go

diff --git a/infra/hasura/index_info.go b/infra/hasura/index_info.go
index 45b12de..f1583be 100644
--- a/infra/hasura/index_info.go
+++ b/infra/hasura/index_info.go
@@ -5,6 +5,7 @@ import (
 	"github.com/lib/pq"
 	"github.com/mrasu/GravityR/lib"
 	"github.com/pkg/errors"
+	"github.com/samber/lo"
 	"strings"
 )
 
@@ -65,7 +66,7 @@ func parseIndexFetchResult(res *RunSQLResponse) ([]*IndexInfo, error) {
 
 		infos = append(infos, &IndexInfo{
 			TableName: r[0],
-			Columns:   cols,
+			Columns:   lo.Map(cols, func(c string, _ int) string { return lib.UnquoteIdentifier(c) }),
 		})
 	}
 
diff --git a/infra/postgres/index_info.go b/infra/postgres/index_info.go
index 4e5bd32..72f0f10 100644
--- a/infra/postgres/index_info.go
+++ b/infra/postgres/index_info.go
@@ -2,6 +2,7 @@ package postgres
 
 import (
 	"github.com/lib/pq"
+	"github.com/mrasu/GravityR/lib"
 	"github.com/samber/lo"
 )
 
@@ -41,7 +42,7 @@ func toIndexInfo(queryInfos []*queryIndexInfo) []*IndexInfo {
 	return lo.Map(queryInfos, func(qi *queryIndexInfo, _ int) *IndexInfo {
 		return &IndexInfo{
 			TableName: qi.TableName,
-			Columns:   qi.ColumnNames,
+			Columns:   lo.Map(qi.ColumnNames, func(c string, _ int) string { return lib.UnquoteIdentifier(c) }),
 		}
 	})
 }
diff --git a/lib/identifier.go b/lib/identifier.go
new file mode 100644
index 0000000..1e043ba
--- /dev/null
+++ b/lib/identifier.go
@@ -0,0 +1,18 @@
+package lib
+
+import "strings"
+
+// UnquoteIdentifier removes double quotes of an identifier quoted by PostgreSQL.
+// Text which is not a quoted identifier (e.g. `id` or `lower("Name")`) is returned as is.
+func UnquoteIdentifier(s string) string {
+	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
+		return s
+	}
+
+	inner := strings.ReplaceAll(s[1:len(s)-1], `""`, "\x00")
+	if strings.Contains(inner, `"`) {
+		return s
+	}
+
+	return strings.ReplaceAll(inner, "\x00", `"`)
+}
-- 
2.43.0


From 407f883edf791b08999bf98861bf91cc96fc62c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:57 +0000
Subject: [PATCH 21/60] fix: do not take a PostgreSQL index on columns of
 different letter case for an existing one

---
 database/dmodel/index_target.go         | 2 +-
 database/mysql/mservice/index_getter.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/database/dmodel/index_target.go b/database/dmodel/index_target.go
index 6b42436..75d56eb 100644
--- a/database/dmodel/index_target.go
+++ b/database/dmodel/index_target.go
@@ -121,7 +121,7 @@ func (it *IndexTarget) HasSameIdxColumns(info *IndexTarget) bool {
 	}
 
 	for i, col := range info.Columns {
-		if !strings.EqualFold(it.Columns[i].Name, col.Name) {
+		if !it.Columns[i].Equals(col) {
 			return false
 		}
 	}
diff --git a/database/mysql/mservice/index_getter.go b/database/mysql/mservice/index_getter.go
index ac8f0ae..b39ef3b 100644
--- a/database/mysql/mservice/index_getter.go
+++ b/database/mysql/mservice/index_getter.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mrasu/GravityR/database/dmodel"
 	"github.com/mrasu/GravityR/infra/mysql"
 	"github.com/samber/lo"
+	"strings"
 )
 
 type IndexGetter struct {
@@ -21,6 +22,8 @@ func (ig *IndexGetter) GetIndexes(dbName string, tables []string) ([]*dmodel.Ind
 	}
 
 	return lo.Map(infos, func(info *mysql.IndexInfo, _ int) *dmodel.IndexTarget {
-		return dmodel.NewIndexTarget(info.TableName, info.Columns)
+		// column names are case-insensitive in MySQL and lower-cased in candidates
+		cols := lo.Map(info.Columns, func(c string, _ int) string { return strings.ToLower(c) })
+		return dmodel.NewIndexTarget(info.TableName, cols)
 	}), nil
 }
-- 
2.43.0


From 4180eebfb3df749b4d2cc285d3cd2639ac73c88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:43 +0000
Subject: [PATCH 22/60] fix: end the title of a MySQL plan step at its first
 marker

A colon or " on " inside a condition or a literal (a timestamp, say) became part of the title.
---
 .../mmodel/explain_analyze_result_line.go     | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/database/mysql/mmodel/explain_analyze_result_line.go b/database/mysql/mmodel/explain_analyze_result_line.go
index 542724b..9d5d7f1 100644
--- a/database/mysql/mmodel/explain_analyze_result_line.go
+++ b/database/mysql/mmodel/explain_analyze_result_line.go
@@ -152,6 +152,7 @@ func (l *ExplainAnalyzeResultLine) String() string {
 }
 
 var titleReg = regexp.MustCompile(`->\s+(.+)\s+\(`)
+var titleEndReg = regexp.MustCompile(`:| join | on `)
 var titleWordReg = regexp.MustCompile(`\w+`)
 
 func (l *ExplainAnalyzeResultLine) Title() string {
@@ -165,18 +166,15 @@ func (l *ExplainAnalyzeResultLine) Title() string {
 		}
 	}
 
+	// The first marker ends the operation's name. Later ones can be a part of a condition or a literal.
 	txt := m[1]
-	if strings.Contains(txt, ":") {
-		t := strings.Split(txt, ":")
-		return strings.TrimSpace(t[0])
+	loc := titleEndReg.FindStringIndex(txt)
+	if loc == nil {
+		return strings.Split(txt, " ")[0]
 	}
-	if strings.Contains(txt, " join ") {
-		t := strings.Split(txt, " join ")
-		return strings.TrimSpace(t[0]) + " join"
+	title := strings.TrimSpace(txt[:loc[0]])
+	if txt[loc[0]:loc[1]] == " join " {
+		title += " join"
 	}
-	if strings.Contains(txt, " on ") {
-		t := strings.Split(txt, " on ")
-		return strings.TrimSpace(t[0])
-	}
-	return strings.Split(txt, " ")[0]
+	return title
 }
-- 
2.43.0


From 32a897ff85cca835e5dee009fc4939c7405280d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:52 +0000
Subject: [PATCH 23/60] fix: read a MySQL plan step's figures only from the end
 of its line

A literal such as '(cost=1 rows=2)' in a condition was taken for the estimate.
---
 database/mysql/mmodel/explain_analyze_result_line.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database/mysql/mmodel/explain_analyze_result_line.go b/database/mysql/mmodel/explain_analyze_result_line.go
index 9d5d7f1..b83cb0d 100644
--- a/database/mysql/mmodel/explain_analyze_result_line.go
+++ b/database/mysql/mmodel/explain_analyze_result_line.go
@@ -32,8 +32,8 @@ var onReg = regexp.MustCompile(` on (\w+)`)
 var filterReg = regexp.MustCompile(` Filter: \((\w+)\.`)
 var sortReg = regexp.MustCompile(` Sort: (\w+)\.`)
 var aggregateReg = regexp.MustCompile(` Aggregate: \w+\((\w+)\.`)
-var analyzeEstimationReg = regexp.MustCompile(`\(cost=([\d.]+?)(\.\.([\d.]+?))?( rows=(\d+))?\)`)
-var analyzeActualReg = regexp.MustCompile(`\(actual time=([\d.]+?)\.\.([\d.]+?) rows=(\d+) loops=(\d+)\)`)
+var analyzeEstimationReg = regexp.MustCompile(`\(cost=([\d.]+?)(\.\.([\d.]+?))?( rows=(\d+))?\)( \(actual [^()]*\)| \(never executed\))?\s*$`)
+var analyzeActualReg = regexp.MustCompile(`\(actual time=([\d.]+?)\.\.([\d.]+?) rows=(\d+) loops=(\d+)\)\s*$`)
 
 func ParseExplainAnalyzeResultLine(line string) (int, *ExplainAnalyzeResultLine, error) {
 	resLine := &ExplainAnalyzeResultLine{
-- 
2.43.0


From c63d3c1329022692e7234a2425df1a5477e6f9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:20 +0000
Subject: [PATCH 24/60] fix: take the table of a MySQL plan step from its
 operation, not from text inside a condition

---
 database/mysql/mmodel/explain_analyze_result_line.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/database/mysql/mmodel/explain_analyze_result_line.go b/database/mysql/mmodel/explain_analyze_result_line.go
index b83cb0d..41fb6fb 100644
--- a/database/mysql/mmodel/explain_analyze_result_line.go
+++ b/database/mysql/mmodel/explain_analyze_result_line.go
@@ -28,10 +28,10 @@ type ExplainAnalyzeResultLine struct {
 }
 
 var prefixIndentReg = regexp.MustCompile(`^\s*`)
-var onReg = regexp.MustCompile(` on (\w+)`)
-var filterReg = regexp.MustCompile(` Filter: \((\w+)\.`)
-var sortReg = regexp.MustCompile(` Sort: (\w+)\.`)
-var aggregateReg = regexp.MustCompile(` Aggregate: \w+\((\w+)\.`)
+var onReg = regexp.MustCompile(`^\s*-> [^:('"]*? on (\w+)`)
+var filterReg = regexp.MustCompile(`^\s*-> Filter: \((\w+)\.`)
+var sortReg = regexp.MustCompile(`^\s*-> Sort: (\w+)\.`)
+var aggregateReg = regexp.MustCompile(`^\s*-> Aggregate: \w+\((\w+)\.`)
 var analyzeEstimationReg = regexp.MustCompile(`\(cost=([\d.]+?)(\.\.([\d.]+?))?( rows=(\d+))?\)( \(actual [^()]*\)| \(never executed\))?\s*$`)
 var analyzeActualReg = regexp.MustCompile(`\(actual time=([\d.]+?)\.\.([\d.]+?) rows=(\d+) loops=(\d+)\)\s*$`)
 
-- 
2.43.0


From 695ea97d4482d06e64148f5d35c3b19c77398877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:31 +0000
Subject: [PATCH 25/60] fix: keep the last plan step when no summary follows

Hasura's explain has no summary, so its last step never appeared.
---
 database/postgres/pservice/explain_analyze_tree_builder.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/database/postgres/pservice/explain_analyze_tree_builder.go b/database/postgres/pservice/explain_analyze_tree_builder.go
index 89dddf4..baf4abb 100644
--- a/database/postgres/pservice/explain_analyze_tree_builder.go
+++ b/database/postgres/pservice/explain_analyze_tree_builder.go
@@ -75,9 +75,6 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 	summaryStartLine := 0
 	for i, line := range explainLines {
 		if summaryReg.MatchString(line) {
-			if len(nodeLines) > 0 {
-				lineNodes = append(lineNodes, nodeLines)
-			}
 			summaryStartLine = i
 			break
 		}
@@ -119,6 +116,10 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 		}
 	}
 
+	if len(nodeLines) > 0 {
+		lineNodes = append(lineNodes, nodeLines)
+	}
+
 	sLine := ""
 	if summaryStartLine > 0 {
 		sLine = strings.Join(explainLines[summaryStartLine:], "\n")
-- 
2.43.0


From ff5f68e890df6fc767863a0c1a3107462df500cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:41 +0000
Subject: [PATCH 26/60] fix: take the table of a PostgreSQL plan step from its
 operation, not from text inside a condition

---
 .../pmodel/explain_analyze_result_node.go     | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/database/postgres/pmodel/explain_analyze_result_node.go b/database/postgres/pmodel/explain_analyze_result_node.go
index e7b851f..43991e9 100644
--- a/database/postgres/pmodel/explain_analyze_result_node.go
+++ b/database/postgres/pmodel/explain_analyze_result_node.go
@@ -30,7 +30,7 @@ type ExplainAnalyzeResultNode struct {
 var prefixSpaceReg = regexp.MustCompile(`^\s*`)
 var onReg = regexp.MustCompile(` on (\w+)`)
 var onWithNamespaceReg = regexp.MustCompile(` on "?([\w.]+)"?`)
-var keyReg = regexp.MustCompile(` Key: (\w+)\.`)
+var keyReg = regexp.MustCompile(`^\s*[\w ]+ Key: (\w+)\.`)
 var metricLineReg = regexp.MustCompile(`\(cost=.+\)( \(actual .+\))?`)
 var analyzeEstimationReg = regexp.MustCompile(`\(cost=([\d.]+?)\.\.([\d.]+?) rows=(\d+) width=(\d+)\)`)
 var analyzeActualReg = regexp.MustCompile(`\(actual time=([\d.]+?)\.\.([\d.]+?) rows=(\d+) loops=(\d+)\)`)
@@ -103,17 +103,19 @@ func ParseExplainAnalyzeResultLineNode(lines []string) (int, *ExplainAnalyzeResu
 }
 
 func extractTableFromExplainAnalyzeResultLine(lines []string) string {
-	for _, line := range lines {
-		m := onReg.FindStringSubmatch(line)
-		if m != nil {
-			return m[1]
-		}
+	// Only the line of the operation names its table with "on". Other lines can have it in a literal.
+	mLine := getMetricLine(lines)
+	m := onReg.FindStringSubmatch(mLine)
+	if m != nil {
+		return m[1]
+	}
 
-		m = onWithNamespaceReg.FindStringSubmatch(line)
-		if m != nil {
-			return m[1]
-		}
+	m = onWithNamespaceReg.FindStringSubmatch(mLine)
+	if m != nil {
+		return m[1]
+	}
 
+	for _, line := range lines {
 		m = keyReg.FindStringSubmatch(line)
 		if m != nil {
 			return m[1]
-- 
2.43.0


From fbecd8eb04c2a7347da02d44655319aab944e8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:11 +0000
Subject: [PATCH 27/60] fix: aggregate Performance Insights' loads by hours of
 UTC

When starting in a time zone off the full hour (+05:30), no load was shown.
---
 infra/aws/pi_sql_load_avg.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/infra/aws/pi_sql_load_avg.go b/infra/aws/pi_sql_load_avg.go
index 3d30367..34eb8a4 100644
--- a/infra/aws/pi_sql_load_avg.go
+++ b/infra/aws/pi_sql_load_avg.go
@@ -26,7 +26,7 @@ func ConvertPiSQLLoadAvgsToVms(start, end time.Time, avgs []*PiSQLLoadAvg) []*vi
 	dbLoadMap := map[time.Time]map[string]*viewmodel.VmDbLoad{}
 	for _, avg := range avgs {
 		for _, v := range avg.Values {
-			baseTime := lib.NormalizeTimeByHour(v.Time)
+			baseTime := lib.NormalizeTimeByHour(v.Time.UTC())
 			if _, ok := sqlLoadMap[baseTime]; !ok {
 				sqlLoadMap[baseTime] = viewmodel.NewVmTimeDbLoad(baseTime)
 			}
@@ -66,7 +66,7 @@ func ConvertPiSQLLoadAvgsToVms(start, end time.Time, avgs []*PiSQLLoadAvg) []*vi
 		}
 	}
 
-	target := lib.NormalizeTimeByHour(start).UTC()
+	target := lib.NormalizeTimeByHour(start.UTC())
 	var res []*viewmodel.VmTimeDbLoad
 	for !target.After(end) {
 		if l, ok := sqlLoadMap[target]; ok {
-- 
2.43.0


From 5d85da933fbd54b8be5487738f8d7f6bde10c474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:19 +0000
Subject: [PATCH 28/60] fix: read all pages of RDS instances

---
 infra/aws/rds.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/infra/aws/rds.go b/infra/aws/rds.go
index 744c93c..93e8ef9 100644
--- a/infra/aws/rds.go
+++ b/infra/aws/rds.go
@@ -25,21 +25,25 @@ func NewRdsWithCli(cli aRds.DescribeDBInstancesAPIClient) *Rds {
 }
 
 func (rds *Rds) GetDBs(engines []string) ([]*RdsDB, error) {
-	output, err := rds.client.DescribeDBInstances(context.Background(), &aRds.DescribeDBInstancesInput{
+	p := aRds.NewDescribeDBInstancesPaginator(rds.client, &aRds.DescribeDBInstancesInput{
 		Filters: []types.Filter{
 			{Name: lib.Ptr("engine"), Values: engines},
 		},
 	})
-	if err != nil {
-		return nil, errors.Wrap(err, "failed to describe db instances")
-	}
 
 	var res []*RdsDB
-	for _, ins := range output.DBInstances {
-		res = append(res, &RdsDB{
-			InstanceIdentifier: *ins.DBInstanceIdentifier,
-			DbiResourceId:      *ins.DbiResourceId,
-		})
+	for p.HasMorePages() {
+		output, err := p.NextPage(context.Background())
+		if err != nil {
+			return nil, errors.Wrap(err, "failed to describe db instances")
+		}
+
+		for _, ins := range output.DBInstances {
+			res = append(res, &RdsDB{
+				InstanceIdentifier: *ins.DBInstanceIdentifier,
+				DbiResourceId:      *ins.DbiResourceId,
+			})
+		}
 	}
 
 	return res, nil
-- 
2.43.0


From 7f13b5258e93dd0b0d9c2bfd1cae7aaa2a37baa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:52 +0000
Subject: [PATCH 29/60] fix: read all pages of Performance Insights' metrics

---
 infra/aws/performance_insights.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/infra/aws/performance_insights.go b/infra/aws/performance_insights.go
index 0bb20b0..8e1cd91 100644
--- a/infra/aws/performance_insights.go
+++ b/infra/aws/performance_insights.go
@@ -29,27 +29,27 @@ func NewPerformanceInsightsWithCli(cli aPi.GetResourceMetricsAPIClient) *Perform
 }
 
 func (pi *PerformanceInsights) GetHalfDaySqlMetrics(db *RdsDB, start time.Time) ([]*PiSQLLoadAvg, error) {
-	output, err := pi.getHalfDayMetrics(db, start, sqlGroupName)
+	metrics, err := pi.getHalfDayMetrics(db, start, sqlGroupName)
 	if err != nil {
 		return nil, err
 	}
 
-	res := pi.convertResourceMetricsToAvgs(db, output, "db.sql.statement", "db.sql.tokenized_id")
+	res := pi.convertResourceMetricsToAvgs(db, metrics, "db.sql.statement", "db.sql.tokenized_id")
 	return res, nil
 }
 
 func (pi *PerformanceInsights) GetHalfDayTokenizedSqlMetrics(db *RdsDB, start time.Time) ([]*PiSQLLoadAvg, error) {
-	output, err := pi.getHalfDayMetrics(db, start, tokenizedSqlGroupName)
+	metrics, err := pi.getHalfDayMetrics(db, start, tokenizedSqlGroupName)
 	if err != nil {
 		return nil, err
 	}
 
-	res := pi.convertResourceMetricsToAvgs(db, output, "db.sql_tokenized.statement", "db.sql_tokenized.id")
+	res := pi.convertResourceMetricsToAvgs(db, metrics, "db.sql_tokenized.statement", "db.sql_tokenized.id")
 	return res, nil
 }
 
-func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, group string) (*aPi.GetResourceMetricsOutput, error) {
-	output, err := pi.client.GetResourceMetrics(context.Background(), &aPi.GetResourceMetricsInput{
+func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, group string) ([]types.MetricKeyDataPoints, error) {
+	p := aPi.NewGetResourceMetricsPaginator(pi.client, &aPi.GetResourceMetricsInput{
 		Identifier: &db.DbiResourceId,
 		MetricQueries: []types.MetricQuery{
 			{
@@ -66,16 +66,21 @@ func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, gro
 		PeriodInSeconds: lib.Ptr(int32(300)),
 	})
 
-	if err != nil {
-		return nil, errors.Wrap(err, "failed to call GetResourceMetrics of PerformanceInsights")
+	var metrics []types.MetricKeyDataPoints
+	for p.HasMorePages() {
+		output, err := p.NextPage(context.Background())
+		if err != nil {
+			return nil, errors.Wrap(err, "failed to call GetResourceMetrics of PerformanceInsights")
+		}
+		metrics = append(metrics, output.MetricList...)
 	}
 
-	return output, nil
+	return metrics, nil
 }
 
-func (pi *PerformanceInsights) convertResourceMetricsToAvgs(db *RdsDB, output *aPi.GetResourceMetricsOutput, sqlKey, tokenizedIdKey string) []*PiSQLLoadAvg {
+func (pi *PerformanceInsights) convertResourceMetricsToAvgs(db *RdsDB, metrics []types.MetricKeyDataPoints, sqlKey, tokenizedIdKey string) []*PiSQLLoadAvg {
 	var res []*PiSQLLoadAvg
-	for _, m := range output.MetricList {
+	for _, m := range metrics {
 		if m.Key.Metric == nil || *m.Key.Metric != loadAvgMetricName {
 			continue
 		}
-- 
2.43.0


From 352dbbbb46476fb4c402d05dbd5e5af6a36a1df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:38 +0000
Subject: [PATCH 30/60] fix: accept span attributes without value

---
 otel/jaeger/v1_converter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/otel/jaeger/v1_converter.go b/otel/jaeger/v1_converter.go
index 05a039b..c917980 100644
--- a/otel/jaeger/v1_converter.go
+++ b/otel/jaeger/v1_converter.go
@@ -85,7 +85,10 @@ func (c *v1Converter) toAnyValue(v *v1.AnyValue) *omodel.AnyValue {
 }
 
 func (c *v1Converter) toAnyValueData(v *v1.AnyValue) omodel.AnyValueDatum {
-	switch vv := v.Value.(type) {
+	switch vv := v.GetValue().(type) {
+	case nil:
+		// OpenTelemetry allows an attribute without value
+		return nil
 	case *v1.AnyValue_StringValue:
 		return &omodel.AnyValueString{StringValue: vv.StringValue}
 	case *v1.AnyValue_BoolValue:
-- 
2.43.0


From 77eb220d1bda2ea56819562b1e060aa624a7d88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:38 +0000
Subject: [PATCH 31/60] fix: do not take a trace ending before its start for
 the slowest one

---
 otel/jaeger/trace_picker.go | 4 +---
 otel/omodel/span.go         | 7 +++++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/otel/jaeger/trace_picker.go b/otel/jaeger/trace_picker.go
index 9347423..23e18d1 100644
--- a/otel/jaeger/trace_picker.go
+++ b/otel/jaeger/trace_picker.go
@@ -22,9 +22,7 @@ func (tp *TracePicker) PickSameServiceAccessTraces(threshold int) []*omodel.Trac
 
 func (tp *TracePicker) PickSlowTraces(num int) []*omodel.TraceTree {
 	slowTraces := lib.NewLimitedHeap[*omodel.TraceTree](num, func(a1, a2 *omodel.TraceTree) bool {
-		d1 := a1.Root.EndTimeUnixNano - a1.Root.StartTimeUnixNano
-		d2 := a2.Root.EndTimeUnixNano - a2.Root.StartTimeUnixNano
-		return d1 < d2
+		return a1.Root.Duration() < a2.Root.Duration()
 	})
 
 	for _, tree := range tp.traces {
diff --git a/otel/omodel/span.go b/otel/omodel/span.go
index 87ef35c..2cfe038 100644
--- a/otel/omodel/span.go
+++ b/otel/omodel/span.go
@@ -67,6 +67,13 @@ func (s *Span) IsSame(other *Span) bool {
 	return bytes.Equal(s.TraceId, other.TraceId) && bytes.Equal(s.SpanId, other.SpanId)
 }
 
+func (s *Span) Duration() uint64 {
+	if s.EndTimeUnixNano < s.StartTimeUnixNano {
+		return 0
+	}
+	return s.EndTimeUnixNano - s.StartTimeUnixNano
+}
+
 func (s *Span) CalcConsumedTime() uint64 {
 	var childTimes [][]uint64
 	for _, c := range s.Children {
-- 
2.43.0


From 37ec49a75db875fda95dabd21218b114a1dd7131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:38 +0000
Subject: [PATCH 32/60] fix: count only the time within a span when a child
 runs longer than it

---
 otel/omodel/span.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/otel/omodel/span.go b/otel/omodel/span.go
index 2cfe038..b10144e 100644
--- a/otel/omodel/span.go
+++ b/otel/omodel/span.go
@@ -84,6 +84,9 @@ func (s *Span) CalcConsumedTime() uint64 {
 	consumedTime := uint64(0)
 	lastEndTime := s.StartTimeUnixNano
 	for _, t := range childTimes {
+		if s.EndTimeUnixNano <= t[0] {
+			break
+		}
 		if lastEndTime < t[0] {
 			consumedTime += t[0] - lastEndTime
 		}
@@ -91,7 +94,9 @@ func (s *Span) CalcConsumedTime() uint64 {
 			lastEndTime = t[1]
 		}
 	}
-	consumedTime += s.EndTimeUnixNano - lastEndTime
+	if lastEndTime < s.EndTimeUnixNano {
+		consumedTime += s.EndTimeUnixNano - lastEndTime
+	}
 
 	return consumedTime
 }
-- 
2.43.0


From 1a1783c3fae8bfe38470f3c0e54c7a3338b72c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:00 +0000
Subject: [PATCH 33/60] fix: report a Jaeger trace once even when several time
 ranges find it

---
 otel/jaeger/trace_fetcher.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/otel/jaeger/trace_fetcher.go b/otel/jaeger/trace_fetcher.go
index aa1428f..8db890f 100644
--- a/otel/jaeger/trace_fetcher.go
+++ b/otel/jaeger/trace_fetcher.go
@@ -1,6 +1,7 @@
 package jaeger
 
 import (
+	"fmt"
 	"github.com/gogo/protobuf/types"
 	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
 	"github.com/mrasu/GravityR/infra/jaeger"
@@ -22,6 +23,7 @@ func (tf *TraceFetcher) FetchCompactedTraces(size int32, start, end time.Time, s
 	interval := 30 * time.Minute
 
 	var res []*omodel.TraceTree
+	found := lib.NewSet[string]()
 	times := lib.GenerateTimeRanges(start, end, interval)
 	for _, start := range times {
 		param := &api_v3.TraceQueryParameters{
@@ -37,7 +39,15 @@ func (tf *TraceFetcher) FetchCompactedTraces(size int32, start, end time.Time, s
 		if err != nil {
 			return nil, err
 		}
-		res = append(res, trees...)
+		for _, tree := range trees {
+			// A trace having spans in several ranges is found for each of them
+			key := fmt.Sprintf("%x/%x", tree.Root.TraceId, tree.Root.SpanId)
+			if found.Contains(key) {
+				continue
+			}
+			found.Add(key)
+			res = append(res, tree)
+		}
 	}
 
 	return res, nil
-- 
2.43.0


From e986dfa38e3e572ff606b1dd12b09eecac333c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:15 +0000
Subject: [PATCH 34/60] fix: ignore children without duration when counting the
 time within a span

---
 otel/omodel/span.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/otel/omodel/span.go b/otel/omodel/span.go
index b10144e..df59e15 100644
--- a/otel/omodel/span.go
+++ b/otel/omodel/span.go
@@ -77,6 +77,9 @@ func (s *Span) Duration() uint64 {
 func (s *Span) CalcConsumedTime() uint64 {
 	var childTimes [][]uint64
 	for _, c := range s.Children {
+		if c.Duration() == 0 {
+			continue
+		}
 		childTimes = append(childTimes, []uint64{c.StartTimeUnixNano, c.EndTimeUnixNano})
 	}
 	lib.Sort(childTimes, func(t []uint64) uint64 { return t[0] })
-- 
2.43.0


From 12bfebd2e0d14a0dc75609cceddb57dd3f393b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:55 +0000
Subject: [PATCH 35/60] fix: quote values in connection string of PostgreSQL

---
 infra/postgres/config.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/infra/postgres/config.go b/infra/postgres/config.go
index 0c5a871..3463286 100644
--- a/infra/postgres/config.go
+++ b/infra/postgres/config.go
@@ -47,19 +47,19 @@ func NewConfigFromEnv() (*Config, error) {
 func (cfg *Config) GetKVConnectionString() string {
 	var texts []string
 	if cfg.user != "" {
-		texts = append(texts, "user='"+cfg.user+"'")
+		texts = append(texts, "user="+quoteValue(cfg.user))
 	}
 	if cfg.password != "" {
-		texts = append(texts, "password='"+cfg.password+"'")
+		texts = append(texts, "password="+quoteValue(cfg.password))
 	}
 	if cfg.host != "" {
-		texts = append(texts, "host='"+cfg.host+"'")
+		texts = append(texts, "host="+quoteValue(cfg.host))
 	}
 	if cfg.port != "" {
-		texts = append(texts, "port='"+cfg.port+"'")
+		texts = append(texts, "port="+quoteValue(cfg.port))
 	}
 	if cfg.DBName != "" {
-		texts = append(texts, "dbname='"+cfg.DBName+"'")
+		texts = append(texts, "dbname="+quoteValue(cfg.DBName))
 	}
 	if cfg.paramText != "" {
 		texts = append(texts, cfg.paramText)
@@ -69,6 +69,11 @@ func (cfg *Config) GetKVConnectionString() string {
 	return strings.Join(texts, " ")
 }
 
+// quoteValue quotes text to be read as it is in connection string
+func quoteValue(text string) string {
+	return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(text) + "'"
+}
+
 func (cfg *Config) GetSearchPathOrPublic() string {
 	if cfg.searchPath == "" {
 		return "public"
-- 
2.43.0


From cdbde96adedff17a56ebb04b78947b5235ddd303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:05 +0000
Subject: [PATCH 36/60] fix: let DB_PARAM_TEXT choose sslmode of PostgreSQL

---
 infra/postgres/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infra/postgres/config.go b/infra/postgres/config.go
index 3463286..783fbc3 100644
--- a/infra/postgres/config.go
+++ b/infra/postgres/config.go
@@ -61,10 +61,10 @@ func (cfg *Config) GetKVConnectionString() string {
 	if cfg.DBName != "" {
 		texts = append(texts, "dbname="+quoteValue(cfg.DBName))
 	}
+	texts = append(texts, "sslmode=disable")
 	if cfg.paramText != "" {
 		texts = append(texts, cfg.paramText)
 	}
-	texts = append(texts, "sslmode=disable")
 
 	return strings.Join(texts, " ")
 }
-- 
2.43.0


From 5791532427414115e20d8bc5c25f8e18b79307b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:28 +0000
Subject: [PATCH 37/60] fix: run queries of PostgreSQL in the schema given by
 DB_SEARCH_PATH

---
 infra/postgres/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/infra/postgres/config.go b/infra/postgres/config.go
index 783fbc3..ca91010 100644
--- a/infra/postgres/config.go
+++ b/infra/postgres/config.go
@@ -1,6 +1,7 @@
 package postgres
 
 import (
+	"github.com/lib/pq"
 	"github.com/mrasu/GravityR/lib"
 	"os"
 	"strings"
@@ -61,6 +62,9 @@ func (cfg *Config) GetKVConnectionString() string {
 	if cfg.DBName != "" {
 		texts = append(texts, "dbname="+quoteValue(cfg.DBName))
 	}
+	if cfg.searchPath != "" {
+		texts = append(texts, "search_path="+quoteValue(pq.QuoteIdentifier(cfg.searchPath)))
+	}
 	texts = append(texts, "sslmode=disable")
 	if cfg.paramText != "" {
 		texts = append(texts, cfg.paramText)
-- 
2.43.0


From 852c1821b84bec869f6d4f40b63a96cb155f94d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:56 +0000
Subject: [PATCH 38/60] fix: send numbers in GraphQL variables without losing
 digits

---
 cmd/db/suggest/hasura/postgres.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/db/suggest/hasura/postgres.go b/cmd/db/suggest/hasura/postgres.go
index 8fe1f74..ad7bab1 100644
--- a/cmd/db/suggest/hasura/postgres.go
+++ b/cmd/db/suggest/hasura/postgres.go
@@ -16,6 +16,8 @@ import (
 	"github.com/rs/zerolog/log"
 	"github.com/samber/lo"
 	"github.com/spf13/cobra"
+	"io"
+	"strings"
 )
 
 var PostgresCmd = &cobra.Command{
@@ -132,10 +134,17 @@ func (pr *postgresRunner) suggest(outputPath string, cli *hasura.Client) error {
 }
 
 func (pr *postgresRunner) parseJSONToVariables(jsonStr string) (map[string]interface{}, error) {
+	// Keep numbers as they are because float64 cannot hold all of them (e.g. bigint)
+	d := json.NewDecoder(strings.NewReader(jsonStr))
+	d.UseNumber()
+
 	var variables map[string]interface{}
-	if err := json.Unmarshal([]byte(jsonStr), &variables); err != nil {
+	if err := d.Decode(&variables); err != nil {
 		return nil, errors.Wrap(err, "failed to parse variables")
 	}
+	if _, err := d.Token(); err != io.EOF {
+		return nil, errors.New("failed to parse variables: unexpected text after JSON")
+	}
 
 	return variables, nil
 }
-- 
2.43.0


From 264eb4fcecac50b6ef8a90d3abb67e11c42eec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:48 +0000
Subject: [PATCH 39/60] fix: log the place of the result when output is an
 absolute path

---
 cmd/util/log.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/util/log.go b/cmd/util/log.go
index 977261c..e1e7cf2 100644
--- a/cmd/util/log.go
+++ b/cmd/util/log.go
@@ -4,8 +4,7 @@ import (
 	"github.com/mrasu/GravityR/database/dmodel"
 	"github.com/rs/zerolog"
 	"github.com/rs/zerolog/log"
-	"os"
-	"path"
+	"path/filepath"
 )
 
 func LogError(err error) {
@@ -17,9 +16,9 @@ func LogError(err error) {
 }
 
 func LogResultOutputPath(outputPath string) {
-	wd, err := os.Getwd()
+	absPath, err := filepath.Abs(outputPath)
 	if err == nil {
-		log.Info().Msg("Result html is at: " + path.Join(wd, outputPath))
+		log.Info().Msg("Result html is at: " + absPath)
 	}
 }
 
-- 
2.43.0


From 73ae4f8c1dff4a00c7308936c92250efc4d98718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:43 +0000
Subject: [PATCH 40/60] fix: escape names of the -i option in the command to
 examine indexes

---
 client/src/lib/shell.ts          | 4 ++++
 client/src/models/IndexTarget.ts | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)
 create mode 100644 client/src/lib/shell.ts

diff --git a/client/src/lib/shell.ts b/client/src/lib/shell.ts
new file mode 100644
index 0000000..21d2115
--- /dev/null
+++ b/client/src/lib/shell.ts
@@ -0,0 +1,4 @@
+// Escape the text to be placed inside double quotes of shell.
+export const escapeInDoubleQuotes = (text: string): string => {
+  return text.replace(/(["$`\\])/g, "\\$1");
+};
diff --git a/client/src/models/IndexTarget.ts b/client/src/models/IndexTarget.ts
index e6a5f03..3c51e76 100644
--- a/client/src/models/IndexTarget.ts
+++ b/client/src/models/IndexTarget.ts
@@ -1,5 +1,6 @@
 import { IndexColumn } from "./IndexColumn";
 import { Type } from "class-transformer";
+import { escapeInDoubleQuotes } from "@/lib/shell";
 
 export class IndexTarget {
   tableName: string;
@@ -12,7 +13,8 @@ export class IndexTarget {
   }
 
   toGrIndexOption(): string {
-    return `"${this.tableName}:${this.toGrColumnOption()}"`;
+    const option = `${this.tableName}:${this.toGrColumnOption()}`;
+    return `"${escapeInDoubleQuotes(option)}"`;
   }
 
   toAlterAddSQL(): string {
-- 
2.43.0


From 7cb57fed8edcc269548c88d05a7252a3ff065660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:43 +0000
Subject: [PATCH 41/60] fix: escape database and SQL in the command shown for
 Performance Insights

---
 .../src/pages/dig/performance_insights/util/CommandText.ts  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/client/src/pages/dig/performance_insights/util/CommandText.ts b/client/src/pages/dig/performance_insights/util/CommandText.ts
index 74f1759..c7e2849 100644
--- a/client/src/pages/dig/performance_insights/util/CommandText.ts
+++ b/client/src/pages/dig/performance_insights/util/CommandText.ts
@@ -1,6 +1,8 @@
+import { escapeInDoubleQuotes } from "@/lib/shell";
+
 export const buildCommandText = (dbName: string, sql: string): string => {
-  const db = dbName ?? "...";
-  const query = sql ?? "...";
+  const db = escapeInDoubleQuotes(dbName ?? "...");
+  const query = escapeInDoubleQuotes(sql ?? "...");
 
   return `DB_DATABASE="${db}" gr db suggest -o "suggest.html" \\\n\t-q "${query}"`;
 };
-- 
2.43.0


From 5fe9191e7350a392ffc524051e11880bb5cf9a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:43 +0000
Subject: [PATCH 42/60] fix: name the mysql subcommand in the command shown for
 Performance Insights

---
 client/src/pages/dig/performance_insights/util/CommandText.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/pages/dig/performance_insights/util/CommandText.ts b/client/src/pages/dig/performance_insights/util/CommandText.ts
index c7e2849..a517d4c 100644
--- a/client/src/pages/dig/performance_insights/util/CommandText.ts
+++ b/client/src/pages/dig/performance_insights/util/CommandText.ts
@@ -4,5 +4,5 @@ export const buildCommandText = (dbName: string, sql: string): string => {
   const db = escapeInDoubleQuotes(dbName ?? "...");
   const query = escapeInDoubleQuotes(sql ?? "...");
 
-  return `DB_DATABASE="${db}" gr db suggest -o "suggest.html" \\\n\t-q "${query}"`;
+  return `DB_DATABASE="${db}" gr db suggest mysql -o "suggest.html" \\\n\t-q "${query}"`;
 };
-- 
2.43.0


From 2dca19fde09f187fc8ab7bdca18caff45f509b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:43 +0000
Subject: [PATCH 43/60] fix: quote names in the SQL shown to add an index

---
 client/src/models/HasuraIndexTarget.ts   |  4 +++-
 client/src/models/IndexTarget.ts         | 10 ++++++++--
 client/src/models/PostgresIndexTarget.ts |  8 ++++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/client/src/models/HasuraIndexTarget.ts b/client/src/models/HasuraIndexTarget.ts
index c8813ef..4cca2a9 100644
--- a/client/src/models/HasuraIndexTarget.ts
+++ b/client/src/models/HasuraIndexTarget.ts
@@ -2,6 +2,8 @@ import { PostgresIndexTarget } from "@/models/PostgresIndexTarget";
 
 export class HasuraIndexTarget extends PostgresIndexTarget {
   toExecutableText(): string {
+    const sql = JSON.stringify(this.toAlterAddSQL()).replace(/'/g, "'\\''");
+
     return `curl --request POST \
   --url "\${HASURA_URL}/v2/query" \
   --header 'Content-Type: application/json' \
@@ -9,7 +11,7 @@ export class HasuraIndexTarget extends PostgresIndexTarget {
   --data '{
 	"type": "run_sql",
 	"args": {
-		"sql": "${this.toAlterAddSQL()}"
+		"sql": ${sql}
 	}
 }'`;
   }
diff --git a/client/src/models/IndexTarget.ts b/client/src/models/IndexTarget.ts
index 3c51e76..6b4c9e4 100644
--- a/client/src/models/IndexTarget.ts
+++ b/client/src/models/IndexTarget.ts
@@ -18,15 +18,21 @@ export class IndexTarget {
   }
 
   toAlterAddSQL(): string {
-    const columns = this.columns.map((v) => v.name).join(", ");
+    const columns = this.columns.map((v) => this.quoteName(v.name)).join(", ");
 
-    return `ALTER TABLE ${this.tableName} ADD INDEX (${columns});`;
+    return `ALTER TABLE ${this.quoteName(
+      this.tableName
+    )} ADD INDEX (${columns});`;
   }
 
   toExecutableText(): string {
     return this.toAlterAddSQL();
   }
 
+  protected quoteName(name: string): string {
+    return "`" + name.replace(/`/g, "``") + "`";
+  }
+
   private toGrColumnOption(): string {
     return this.columns.map((v) => v.name).join("+");
   }
diff --git a/client/src/models/PostgresIndexTarget.ts b/client/src/models/PostgresIndexTarget.ts
index faf57ec..7daab0b 100644
--- a/client/src/models/PostgresIndexTarget.ts
+++ b/client/src/models/PostgresIndexTarget.ts
@@ -2,8 +2,12 @@ import { IndexTarget } from "@/models/IndexTarget";
 
 export class PostgresIndexTarget extends IndexTarget {
   toAlterAddSQL(): string {
-    const columns = this.columns.map((v) => v.name).join(", ");
+    const columns = this.columns.map((v) => this.quoteName(v.name)).join(", ");
 
-    return `CREATE INDEX ON ${this.tableName} (${columns});`;
+    return `CREATE INDEX ON ${this.quoteName(this.tableName)} (${columns});`;
+  }
+
+  protected quoteName(name: string): string {
+    return `"${name.replace(/"/g, '""')}"`;
   }
 }
-- 
2.43.0


From 289da90819874432c1974373d99bf566963bc3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:17 +0000
Subject: [PATCH 44/60] fix: show loads of databases and SQLs named like a
 member of Object

---
 .../src/pages/dig/performance_insights/DbLoadRankingChart.ts | 5 +++--
 .../dig/performance_insights/DbTokenizedLoadRankingChart.ts  | 4 ++--
 .../performance_insights/util/chart/LoadPropChartSereies.ts  | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/client/src/pages/dig/performance_insights/DbLoadRankingChart.ts b/client/src/pages/dig/performance_insights/DbLoadRankingChart.ts
index cfbdc53..8be3595 100644
--- a/client/src/pages/dig/performance_insights/DbLoadRankingChart.ts
+++ b/client/src/pages/dig/performance_insights/DbLoadRankingChart.ts
@@ -77,13 +77,14 @@ export class DbLoadRankingChart extends GrChart<DbLoadRankingChartProp> {
   }
 
   private createDbLoadChartSeries = (targetDatabases: string[]): Series => {
-    let props: Record<string, Record<string, DbLoadRankingChartProp>> = {};
+    let props: Record<string, Record<string, DbLoadRankingChartProp>> =
+      Object.create(null);
     for (const load of this.timeDbLoads) {
       for (const dbLoad of load.databases) {
         if (!targetDatabases.includes(dbLoad.name)) continue;
 
         if (!props[dbLoad.name]) {
-          props[dbLoad.name] = {};
+          props[dbLoad.name] = Object.create(null);
         }
         const dbProps = props[dbLoad.name];
         for (const loadOfSql of dbLoad.sqls) {
diff --git a/client/src/pages/dig/performance_insights/DbTokenizedLoadRankingChart.ts b/client/src/pages/dig/performance_insights/DbTokenizedLoadRankingChart.ts
index 794366c..44036bf 100644
--- a/client/src/pages/dig/performance_insights/DbTokenizedLoadRankingChart.ts
+++ b/client/src/pages/dig/performance_insights/DbTokenizedLoadRankingChart.ts
@@ -95,13 +95,13 @@ export class DbTokenizedLoadRankingChart extends GrChart<DbTokenizedLoadRankingC
     let props: Record<
       string,
       Record<string, DbTokenizedLoadRankingChartProp>
-    > = {};
+    > = Object.create(null);
     for (const load of this.tokenizedTimeDbLoads) {
       for (const dbLoad of load.databases) {
         if (!targetDatabases.includes(dbLoad.name)) continue;
 
         if (!props[dbLoad.name]) {
-          props[dbLoad.name] = {};
+          props[dbLoad.name] = Object.create(null);
         }
         const dbProps = props[dbLoad.name];
         for (const loadOfSql of dbLoad.sqls) {
diff --git a/client/src/pages/dig/performance_insights/util/chart/LoadPropChartSereies.ts b/client/src/pages/dig/performance_insights/util/chart/LoadPropChartSereies.ts
index 5817b00..3ec78df 100644
--- a/client/src/pages/dig/performance_insights/util/chart/LoadPropChartSereies.ts
+++ b/client/src/pages/dig/performance_insights/util/chart/LoadPropChartSereies.ts
@@ -16,7 +16,7 @@ export const createLoadPropChartSeries = <T>(
   ) => GrChartSeriesData<T>
 ): GrChartSeries<T> => {
   let series: GrChartSeries<T> = [];
-  let knownSeries: SeriesRecord<T> = {};
+  let knownSeries: SeriesRecord<T> = Object.create(null);
 
   for (let i = 0; i < dbLoads.length; i++) {
     const timeDbLoad = dbLoads[i];
@@ -27,7 +27,7 @@ export const createLoadPropChartSeries = <T>(
         if (loadOfSql.loadMax < threshold) continue;
 
         if (!knownSeries[dbLoad.name]) {
-          knownSeries[dbLoad.name] = {};
+          knownSeries[dbLoad.name] = Object.create(null);
         }
         const dbSeries = knownSeries[dbLoad.name];
         if (!dbSeries[loadOfSql.sql]) {
-- 
2.43.0


From 929d8ea1114cdb0c1b57f775748cf807a4622e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:17 +0000
Subject: [PATCH 45/60] fix: place the empty bars before a SQL's first load at
 their own hours

---
 .../performance_insights/util/chart/LoadPropChartSereies.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/client/src/pages/dig/performance_insights/util/chart/LoadPropChartSereies.ts b/client/src/pages/dig/performance_insights/util/chart/LoadPropChartSereies.ts
index 3ec78df..f55421a 100644
--- a/client/src/pages/dig/performance_insights/util/chart/LoadPropChartSereies.ts
+++ b/client/src/pages/dig/performance_insights/util/chart/LoadPropChartSereies.ts
@@ -34,10 +34,10 @@ export const createLoadPropChartSeries = <T>(
           const seriesData = {
             database: dbLoad.name,
             name: loadOfSql.sql,
-            data: Array(i).fill({
-              x: timeDbLoad.date,
+            data: dbLoads.slice(0, i).map((v) => ({
+              x: v.date,
               y: 0,
-            }),
+            })) as GrChartSeriesData<T>[],
           };
           dbSeries[loadOfSql.sql] = seriesData;
           series.push(seriesData);
-- 
2.43.0


From f6aeae4bac555a23717583ee442ca6a653cbe307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:17 +0000
Subject: [PATCH 46/60] fix: show no data for a tokenized SQL without plain SQL
 instead of failing

---
 .../pages/dig/performance_insights/util/chart/TokenizedLoad.ts  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/pages/dig/performance_insights/util/chart/TokenizedLoad.ts b/client/src/pages/dig/performance_insights/util/chart/TokenizedLoad.ts
index eb22fb5..ad720e6 100644
--- a/client/src/pages/dig/performance_insights/util/chart/TokenizedLoad.ts
+++ b/client/src/pages/dig/performance_insights/util/chart/TokenizedLoad.ts
@@ -35,7 +35,7 @@ export const pickRawLoads = (
   size: number,
   tokenizedId: string
 ): RawLoadOfSql[] => {
-  const loads = rawLoads[tokenizedId];
+  const loads = rawLoads[tokenizedId] ?? [];
   const sortedLoads = [...loads].sort(
     (l1, l2) => l2.load.loadMax - l1.load.loadMax
   );
-- 
2.43.0


From 37370cfb6ca69cf59f2aa12646f052995d8de27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:48 +0000
Subject: [PATCH 47/60] fix: highlight the line of a bar on browsers without
 event.path

---
 client/src/lib/GrChart.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/src/lib/GrChart.ts b/client/src/lib/GrChart.ts
index 60f6288..58b26c0 100644
--- a/client/src/lib/GrChart.ts
+++ b/client/src/lib/GrChart.ts
@@ -87,7 +87,7 @@ export abstract class GrChart<T> {
   };
 
   private dataPointMouseEnter = (
-    event: { path: SVGMPathElement[] },
+    event: MouseEvent,
     {
       w: {
         config: { series },
@@ -95,7 +95,7 @@ export abstract class GrChart<T> {
     }: ChartContext<T>,
     { seriesIndex, dataPointIndex }: ChartConfig
   ) => {
-    event.path[0].style.cursor = "pointer";
+    (event.target as SVGElement).style.cursor = "pointer";
 
     this.onDataPointMouseEnter(series[seriesIndex].data[dataPointIndex].prop);
   };
-- 
2.43.0


From 930a4bc235ca48744f92e30250efd1c7bc4ec818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:48 +0000
Subject: [PATCH 48/60] fix: escape plan text in tooltips of the explain chart

---
 client/src/lib/html.ts                                   | 8 ++++++++
 client/src/pages/suggest/hasura/ExplainChart.svelte      | 9 ++++++---
 .../src/pages/suggest/mysql/ExplainAnalyzeChart.svelte   | 9 ++++++---
 .../pages/suggest/postgres/ExplainAnalyzeChart.svelte    | 9 ++++++---
 4 files changed, 26 insertions(+), 9 deletions(-)
 create mode 100644 client/src/lib/html.ts

diff --git a/client/src/lib/html.ts b/client/src/lib/html.ts
new file mode 100644
index 0000000..7e3e630
--- /dev/null
+++ b/client/src/lib/html.ts
@@ -0,0 +1,8 @@
+export const escapeHtml = (text: string): string => {
+  return text
+    .replace(/&/g, "&amp;")
+    .replace(/</g, "&lt;")
+    .replace(/>/g, "&gt;")
+    .replace(/"/g, "&quot;")
+    .replace(/'/g, "&#39;");
+};
diff --git a/client/src/pages/suggest/hasura/ExplainChart.svelte b/client/src/pages/suggest/hasura/ExplainChart.svelte
index 5169497..2ae6532 100644
--- a/client/src/pages/suggest/hasura/ExplainChart.svelte
+++ b/client/src/pages/suggest/hasura/ExplainChart.svelte
@@ -1,5 +1,6 @@
 <script lang="ts">
   import { onMount } from "svelte";
+  import { escapeHtml } from "@/lib/html";
   import { ExplainTree } from "@/components/ExplainTree/ExplainTree";
   import { getHighlightIndex } from "@/contexts/HighlightIndexContext";
   import { ExplainTreeChart } from "@/components/ExplainTree/ExplainTreeChart";
@@ -47,11 +48,13 @@
 
     return `
       <div style='text-align: left; padding: 5px'>
-        <div style='margin-bottom: 5px; font-weight: bold'>${text}</div>
+        <div style='margin-bottom: 5px; font-weight: bold'>${escapeHtml(text)}</div>
         <div>Table:
           ${
-            tableName ? `<span style='font-weight: bold'>${tableName}` : "-"
-          }</span>
+            tableName
+              ? `<span style='font-weight: bold'>${escapeHtml(tableName)}</span>`
+              : "-"
+          }
         </div>
         <div>Initial cost (estimated) : ${estimatedInitCost}</div>
         <div>Cost (estimated) : ${estimatedCost}</div>
diff --git a/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte b/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte
index 31d7b6f..0c316e6 100644
--- a/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte
+++ b/client/src/pages/suggest/mysql/ExplainAnalyzeChart.svelte
@@ -1,5 +1,6 @@
 <script lang="ts">
   import { onMount } from "svelte";
+  import { escapeHtml } from "@/lib/html";
   import { ExplainTree } from "@/components/ExplainTree/ExplainTree";
   import { getHighlightIndex } from "@/contexts/HighlightIndexContext";
   import { ExplainTreeChart } from "@/components/ExplainTree/ExplainTreeChart";
@@ -58,11 +59,13 @@
 
     return `
       <div style='text-align: left; padding: 5px'>
-        <div style='margin-bottom: 5px; font-weight: bold'>${text}</div>
+        <div style='margin-bottom: 5px; font-weight: bold'>${escapeHtml(text)}</div>
         <div>Table:
           ${
-            tableName ? `<span style='font-weight: bold'>${tableName}` : "-"
-          }</span>
+            tableName
+              ? `<span style='font-weight: bold'>${escapeHtml(tableName)}</span>`
+              : "-"
+          }
         </div>
         ${InitCostHtml}
         <div>Cost (estimated) : ${estimatedCost ?? "-"}</div>
diff --git a/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte b/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
index 3f7e094..8529d18 100644
--- a/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
+++ b/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
@@ -1,5 +1,6 @@
 <script lang="ts">
   import { onMount } from "svelte";
+  import { escapeHtml } from "@/lib/html";
   import { ExplainTree } from "@/components/ExplainTree/ExplainTree";
   import { getHighlightIndex } from "@/contexts/HighlightIndexContext";
   import { ExplainTreeChart } from "@/components/ExplainTree/ExplainTreeChart";
@@ -51,11 +52,13 @@
 
     return `
       <div style='text-align: left; padding: 5px'>
-        <div style='margin-bottom: 5px; font-weight: bold'>${text}</div>
+        <div style='margin-bottom: 5px; font-weight: bold'>${escapeHtml(text)}</div>
         <div>Table:
           ${
-            tableName ? `<span style='font-weight: bold'>${tableName}` : "-"
-          }</span>
+            tableName
+              ? `<span style='font-weight: bold'>${escapeHtml(tableName)}</span>`
+              : "-"
+          }
         </div>
         <div>Initial cost (estimated) : ${estimatedInitCost}</div>
         <div>Cost (estimated) : ${estimatedCost}</div>
-- 
2.43.0


From 8df21be7969b8e14eb9ad39957112b0e1b2da384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:48 +0000
Subject: [PATCH 49/60] fix: show the time of a PostgreSQL plan step whose
 first row took 0.000 ms

---
 client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte b/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
index 8529d18..2620daa 100644
--- a/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
+++ b/client/src/pages/suggest/postgres/ExplainAnalyzeChart.svelte
@@ -66,7 +66,9 @@
         <div>Width (estimated) : ${estimatedWidth}</div>
         <!-- actualTimeAvg seems not the average time of loops for PostgreSQL even doc says so... -->
         <div>Time (actual) :  ${
-          actualTimeFirstRow ? `${actualTimeFirstRow} ~ ${actualTimeAvg}` : "-"
+          actualTimeFirstRow != null
+            ? `${actualTimeFirstRow} ~ ${actualTimeAvg}`
+            : "-"
         }</div>
         <div>Rows returned (actual) : ${actualReturnedRows ?? "-"}</div>
         <div>Loop count (actual) : ${actualLoopCount ?? "-"}</div>
-- 
2.43.0


From 4a295cd787d0bf46c104af24dd088225ccd633ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:48 +0000
Subject: [PATCH 50/60] fix: escape SQL in tooltips of Performance Insights

---
 .../pages/dig/performance_insights/util/LoadTooltip.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/client/src/pages/dig/performance_insights/util/LoadTooltip.ts b/client/src/pages/dig/performance_insights/util/LoadTooltip.ts
index c9260a2..015e839 100644
--- a/client/src/pages/dig/performance_insights/util/LoadTooltip.ts
+++ b/client/src/pages/dig/performance_insights/util/LoadTooltip.ts
@@ -1,3 +1,5 @@
+import { escapeHtml } from "@/lib/html";
+
 type LoadProp = {
   dbName: string;
   sql: string;
@@ -12,14 +14,14 @@ export const createLoadMaxTooltip = (
   return `
     <div style='max-width: 500px; white-space: normal; max-height: ${maxHeight}px'>
       ${date.toUTCString()}<br />
-      Database: ${dbName}<br />
+      Database: ${escapeHtml(dbName)}<br />
       <div style='margin-bottom: 10px;'>
         db.load.avg:&nbsp;
         <span style='font-weight: bold;'>
           ${loadMaxPercent.toFixed(2)}%
         </span>
       </div>
-      <span style='white-space: break-spaces'>${sql}</span>
+      <span style='white-space: break-spaces'>${escapeHtml(sql)}</span>
     </div>
     `;
 };
@@ -36,14 +38,14 @@ export const createLoadSumTooltip = (
 ): string => {
   return `
     <div style='max-width: 500px; white-space: normal; max-height: ${maxHeight}px'>
-      Database: ${dbName}<br />
+      Database: ${escapeHtml(dbName)}<br />
       <div style='margin-bottom: 10px;'>
         Sum of db.load.avg:&nbsp;
         <span style='font-weight: bold;'>
           ${loadSumPercent.toFixed(2)}%
         </span>
       </div>
-      <span style='white-space: break-spaces'>${sql}</span>
+      <span style='white-space: break-spaces'>${escapeHtml(sql)}</span>
     </div>
     `;
 };
-- 
2.43.0


From a9978049f38eca2fe150dc3e08335875cfb2a222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:00 +0000
Subject: [PATCH 51/60] fix: keep the path of JAEGER_UI_URL in links to traces

---
 client/src/pages/dig/jaeger/TracesTable.svelte | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/src/pages/dig/jaeger/TracesTable.svelte b/client/src/pages/dig/jaeger/TracesTable.svelte
index 03aadf1..68ab6ce 100644
--- a/client/src/pages/dig/jaeger/TracesTable.svelte
+++ b/client/src/pages/dig/jaeger/TracesTable.svelte
@@ -57,7 +57,7 @@
         </td>
         <td
           ><a
-            href={new URL(`/trace/${traceTree.traceId}`, uiPath).href}
+            href={`${uiPath.replace(/\/+$/, "")}/trace/${traceTree.traceId}`}
             target="_blank"
             rel="noopener noreferrer">Open detail</a
           ></td
-- 
2.43.0


From fd6f6d6d834deada7967453656a9c0c7b6340393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:52 +0000
Subject: [PATCH 52/60] fix: show no reduction instead of NaN when a query took
 0 ms before and after

---
 client/src/models/ExaminationIndexResult.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/client/src/models/ExaminationIndexResult.ts b/client/src/models/ExaminationIndexResult.ts
index fe9b6a8..e41807a 100644
--- a/client/src/models/ExaminationIndexResult.ts
+++ b/client/src/models/ExaminationIndexResult.ts
@@ -7,10 +7,12 @@ export class ExaminationIndexResult {
   executionTimeMillis: number;
 
   toReductionPercent(originalTimeMillis: number): string {
-    return (
-      (1 - this.executionTimeMillis / originalTimeMillis) *
-      100
-    ).toLocaleString(undefined, {
+    const reduction =
+      this.executionTimeMillis === originalTimeMillis
+        ? 0
+        : 1 - this.executionTimeMillis / originalTimeMillis;
+
+    return (reduction * 100).toLocaleString(undefined, {
       minimumFractionDigits: 2,
       maximumFractionDigits: 2,
     });
-- 
2.43.0


From 71b63bedf242d26d4c90851f9bdee11cd3bdf8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:53 +0000
Subject: [PATCH 53/60] fix: open the report of an examination which had no
 index to examine

---
 database/dmodel/examination_result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/dmodel/examination_result.go b/database/dmodel/examination_result.go
index e492522..351a7df 100644
--- a/database/dmodel/examination_result.go
+++ b/database/dmodel/examination_result.go
@@ -15,7 +15,7 @@ func NewExaminationResult(irs []*ExaminationIndexResult, time int64) *Examinatio
 }
 
 func (er *ExaminationResult) ToViewModel() *viewmodel.VmExaminationResult {
-	var virs []*viewmodel.VmExaminationIndexResult
+	virs := []*viewmodel.VmExaminationIndexResult{}
 	for _, ir := range er.IndexResults {
 		virs = append(virs, ir.ToViewModel())
 	}
-- 
2.43.0


From 52d5e0b7583ffef1d1048bbdebe7be9e3cfabd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:49 +0000
Subject: [PATCH 54/60] fix: show no reduction on the console instead of NaN
 when a query took 0 ms before and after

---
 database/dservice/examiner.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/database/dservice/examiner.go b/database/dservice/examiner.go
index 7de34f3..f6fb8e4 100644
--- a/database/dservice/examiner.go
+++ b/database/dservice/examiner.go
@@ -60,7 +60,7 @@ func (iee *IndexEfficiencyExaminer) Run(its []*dmodel.IndexTarget) (*dmodel.Exam
 		for _, r := range rs {
 			log.Printf("Time: %dms (%.1f%% reduced), Columns(%s)",
 				r.ExecutionTimeMillis,
-				(1-float64(r.ExecutionTimeMillis)/float64(origExecTimeMillis))*100,
+				reductionPercent(r.ExecutionTimeMillis, origExecTimeMillis),
 				lib.Join(r.IndexTarget.Columns, ",", func(i *dmodel.IndexColumn) string { return i.SafeName() }),
 			)
 		}
@@ -69,6 +69,13 @@ func (iee *IndexEfficiencyExaminer) Run(its []*dmodel.IndexTarget) (*dmodel.Exam
 	return er, nil
 }
 
+func reductionPercent(execTimeMillis, origExecTimeMillis int64) float64 {
+	if execTimeMillis == origExecTimeMillis {
+		return 0
+	}
+	return (1 - float64(execTimeMillis)/float64(origExecTimeMillis)) * 100
+}
+
 const maxIdxNameLen = 30
 
 func (iee *IndexEfficiencyExaminer) examine(id string, it *dmodel.IndexTarget) (res *dmodel.ExaminationIndexResult, err error) {
-- 
2.43.0


From 0d961478028489e53438361d40d75f9b30f216c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:39 +0000
Subject: [PATCH 55/60] fix: refuse a query other than SELECT before it is
 executed

---
 cmd/db/suggest/mysql.go                       |  9 ++++++++-
 cmd/db/suggest/postgres.go                    |  9 ++++++++-
 database/mysql/mservice/index_suggester.go    | 15 +++++++++++++++
 database/mysql/mservice/parse.go              |  3 +++
 database/postgres/pservice/index_suggester.go | 15 +++++++++++++++
 5 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/cmd/db/suggest/mysql.go b/cmd/db/suggest/mysql.go
index a128264..28eb14a 100644
--- a/cmd/db/suggest/mysql.go
+++ b/cmd/db/suggest/mysql.go
@@ -64,12 +64,19 @@ func (mr *mysqlRunner) suggest(outputPath string, db *mysql.DB, dbName string) e
 		return err
 	}
 
+	suggester := mservice.NewIndexSuggester(db, dbName)
+	// EXPLAIN ANALYZE executes the query, so that confirm it is SELECT beforehand
+	err = suggester.Validate(mr.query)
+	if err != nil {
+		return err
+	}
+
 	aTree, err := mservice.NewExplainer(db).ExplainWithAnalyze(mr.query)
 	if err != nil {
 		return err
 	}
 
-	its, err := mservice.NewIndexSuggester(db, dbName).Suggest(mr.query)
+	its, err := suggester.Suggest(mr.query)
 	if err != nil {
 		return err
 	}
diff --git a/cmd/db/suggest/postgres.go b/cmd/db/suggest/postgres.go
index 54a7b78..b9effef 100644
--- a/cmd/db/suggest/postgres.go
+++ b/cmd/db/suggest/postgres.go
@@ -64,12 +64,19 @@ func (pr *postgresRunner) suggest(outputPath string, db *postgres.DB, schema str
 		return err
 	}
 
+	suggester := pservice.NewIndexSuggester(db, schema)
+	// EXPLAIN ANALYZE executes the query, so that confirm it is SELECT beforehand
+	err = suggester.Validate(pr.query)
+	if err != nil {
+		return err
+	}
+
 	aTree, err := pservice.NewExplainer(db).ExplainWithAnalyze(pr.query)
 	if err != nil {
 		return err
 	}
 
-	its, err := pservice.NewIndexSuggester(db, schema).Suggest(pr.query)
+	its, err := suggester.Suggest(pr.query)
 	if err != nil {
 		return err
 	}
diff --git a/database/mysql/mservice/index_suggester.go b/database/mysql/mservice/index_suggester.go
index 08dc046..74b9275 100644
--- a/database/mysql/mservice/index_suggester.go
+++ b/database/mysql/mservice/index_suggester.go
@@ -20,6 +20,21 @@ func NewIndexSuggester(db *mysql.DB, dbName string) *IndexSuggester {
 	}
 }
 
+// Validate returns an error when the query is not one Suggest supports (e.g. UPDATE). It doesn't access to the database.
+func (is *IndexSuggester) Validate(query string) error {
+	rootNode, err := Parse(tParser.New(), query)
+	if err != nil {
+		return err
+	}
+
+	_, errs := parser.CollectStmtScopes(rootNode)
+	if len(errs) > 0 {
+		return errs[0]
+	}
+
+	return nil
+}
+
 func (is *IndexSuggester) Suggest(query string) ([]*dmodel.IndexTarget, error) {
 	p := tParser.New()
 	rootNode, err := Parse(p, query)
diff --git a/database/mysql/mservice/parse.go b/database/mysql/mservice/parse.go
index aafd730..f996786 100644
--- a/database/mysql/mservice/parse.go
+++ b/database/mysql/mservice/parse.go
@@ -14,6 +14,9 @@ func Parse(p *parser.Parser, query string) (ast.StmtNode, error) {
 	if len(stmtNodes) == 0 {
 		return nil, errors.New("no statement found in query")
 	}
+	if len(stmtNodes) > 1 {
+		return nil, errors.New("not supporting query having multiple statements")
+	}
 
 	return stmtNodes[0], nil
 }
diff --git a/database/postgres/pservice/index_suggester.go b/database/postgres/pservice/index_suggester.go
index 086a136..eaab7e4 100644
--- a/database/postgres/pservice/index_suggester.go
+++ b/database/postgres/pservice/index_suggester.go
@@ -19,6 +19,21 @@ func NewIndexSuggester(db *postgres.DB, schema string) *IndexSuggester {
 	}
 }
 
+// Validate returns an error when the query is not one Suggest supports (e.g. UPDATE). It doesn't access to the database.
+func (is *IndexSuggester) Validate(query string) error {
+	stmt, err := Parse(query)
+	if err != nil {
+		return err
+	}
+
+	_, errs := parser.CollectStmtScopes(stmt, is.schema)
+	if len(errs) > 0 {
+		return errs[0]
+	}
+
+	return nil
+}
+
 func (is *IndexSuggester) Suggest(query string) ([]*dmodel.IndexTarget, error) {
 	stmt, err := Parse(query)
 	if err != nil {
-- 
2.43.0


From 42b0a09819ff71f2900ae0107a0a7e4beb8cd2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:39 +0000
Subject: [PATCH 56/60] fix: end a comment at carriage return as PostgreSQL
 does

---
 database/postgres/pservice/parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parse.go b/database/postgres/pservice/parse.go
index 9d8a104..16dc377 100644
--- a/database/postgres/pservice/parse.go
+++ b/database/postgres/pservice/parse.go
@@ -3,10 +3,12 @@ package pservice
 import (
 	"github.com/auxten/postgresql-parser/pkg/sql/parser"
 	"github.com/pkg/errors"
+	"strings"
 )
 
 func Parse(query string) (*parser.Statement, error) {
-	stmts, err := parser.Parse(query)
+	// PostgreSQL regards CR as the end of a line too, while the parser regards only LF.
+	stmts, err := parser.Parse(strings.ReplaceAll(query, "\r", "\n"))
 	if err != nil {
 		return nil, errors.Wrap(err, "failed to parse sql")
 	}
-- 
2.43.0


From b1f86141d985df5599143c1fcfea4c154fa184e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:21 +0000
Subject: [PATCH 57/60] fix: return error for a parenthesized join before
 executing the query

---
 database/postgres/pservice/index_suggester.go            | 7 ++++++-
 database/postgres/pservice/parser/collect_stmt_scopes.go | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/database/postgres/pservice/index_suggester.go b/database/postgres/pservice/index_suggester.go
index eaab7e4..379d916 100644
--- a/database/postgres/pservice/index_suggester.go
+++ b/database/postgres/pservice/index_suggester.go
@@ -26,7 +26,12 @@ func (is *IndexSuggester) Validate(query string) error {
 		return err
 	}
 
-	_, errs := parser.CollectStmtScopes(stmt, is.schema)
+	_, errs := parser.CollectTableNames(stmt)
+	if len(errs) > 0 {
+		return errs[0]
+	}
+
+	_, errs = parser.CollectStmtScopes(stmt, is.schema)
 	if len(errs) > 0 {
 		return errs[0]
 	}
diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index ead69a5..62ccee0 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -540,7 +540,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 			sc.lastError = lib.NewUnsupportedError("numeric table reference is not supported")
 		}
 	case *tree.ParenTableExpr:
-		return sc.collectTables(t)
+		return sc.collectTables(t.Expr)
 	case *tree.JoinTableExpr:
 		tables, fields = sc.collectJoinReferences(t)
 	case *tree.RowsFromExpr:
-- 
2.43.0


From a569857d9c72adbbbd1abfa1dab30126dd9d7f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:42 +0000
Subject: [PATCH 58/60] fix: accept the schema of the connection in a query
 instead of public

---
 database/postgres/pservice/index_suggester.go          |  2 +-
 .../postgres/pservice/parser/collect_stmt_scopes.go    |  2 +-
 .../postgres/pservice/parser/collect_table_names.go    | 10 ++++++++--
 database/postgres/pservice/parser/index.go             |  4 ++--
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/database/postgres/pservice/index_suggester.go b/database/postgres/pservice/index_suggester.go
index 379d916..10fd2a0 100644
--- a/database/postgres/pservice/index_suggester.go
+++ b/database/postgres/pservice/index_suggester.go
@@ -26,7 +26,7 @@ func (is *IndexSuggester) Validate(query string) error {
 		return err
 	}
 
-	_, errs := parser.CollectTableNames(stmt)
+	_, errs := parser.CollectTableNamesInSchema(stmt, is.schema)
 	if len(errs) > 0 {
 		return errs[0]
 	}
diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 62ccee0..ddbc19f 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -659,7 +659,7 @@ func (sc *scopeCollector) isSchemaSpecifiedTableName(tt *tree.TableName) bool {
 		return true
 	}
 
-	sName := tt.SchemaName.Normalize()
+	sName := string(tt.SchemaName)
 	if sName == "" || sName == sc.targetSchema {
 		return false
 	}
diff --git a/database/postgres/pservice/parser/collect_table_names.go b/database/postgres/pservice/parser/collect_table_names.go
index 2c12da1..3b24c31 100644
--- a/database/postgres/pservice/parser/collect_table_names.go
+++ b/database/postgres/pservice/parser/collect_table_names.go
@@ -12,6 +12,8 @@ type tableCollector struct {
 	tables    []*table
 	errors    []error
 	cteTables [][]string
+
+	targetSchema string
 }
 
 type table struct {
@@ -20,7 +22,11 @@ type table struct {
 }
 
 func CollectTableNames(stmt *parser.Statement) ([]string, []error) {
-	tc := &tableCollector{}
+	return CollectTableNamesInSchema(stmt, "public")
+}
+
+func CollectTableNamesInSchema(stmt *parser.Statement, targetSchema string) ([]string, []error) {
+	tc := &tableCollector{targetSchema: targetSchema}
 	if _, ok := stmt.AST.(*tree.Select); !ok {
 		return nil, []error{lib.NewUnsupportedError("only SELECT query is supported")}
 	}
@@ -99,7 +105,7 @@ func (tc *tableCollector) isCteTable(name string) bool {
 }
 
 func (tc *tableCollector) addTableIfNotDerived(asName tree.Name, tName *tree.TableName) {
-	if (tName.SchemaName != "public" && tName.SchemaName != "") || tName.CatalogName != "" {
+	if (string(tName.SchemaName) != tc.targetSchema && tName.SchemaName != "") || tName.CatalogName != "" {
 		tc.errors = append(tc.errors, lib.NewUnsupportedError(
 			fmt.Sprintf("not supporting query referencing schema or catalog explicitly: %s.%s.%s", tName.CatalogName, tName.SchemaName, tName.TableName),
 		))
diff --git a/database/postgres/pservice/parser/index.go b/database/postgres/pservice/parser/index.go
index af722fe..f7f1329 100644
--- a/database/postgres/pservice/parser/index.go
+++ b/database/postgres/pservice/parser/index.go
@@ -8,7 +8,7 @@ import (
 )
 
 func ListPossibleIndexes(db *postgres.DB, schema string, stmt *parser.Statement) ([]*dmodel.IndexTarget, []error) {
-	tNames, errs := CollectTableNames(stmt)
+	tNames, errs := CollectTableNamesInSchema(stmt, schema)
 	if len(errs) > 0 {
 		return nil, errs
 	}
@@ -18,7 +18,7 @@ func ListPossibleIndexes(db *postgres.DB, schema string, stmt *parser.Statement)
 		return nil, []error{err}
 	}
 
-	scopes, errs := CollectStmtScopes(stmt, "public")
+	scopes, errs := CollectStmtScopes(stmt, schema)
 	if len(errs) > 0 {
 		return nil, errs
 	}
-- 
2.43.0


From 9581e82fef3119920f979585d28594b649622261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:57 +0000
Subject: [PATCH 59/60] fix: keep letter case of quoted tables, aliases and
 USING columns of PostgreSQL

---
 .../postgres/pservice/parser/collect_stmt_scopes.go    | 10 +++++-----
 .../postgres/pservice/parser/collect_table_names.go    |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index ddbc19f..688fd0b 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -467,7 +467,7 @@ func (sc *scopeCollector) collectExprReferences(expr tree.Expr, defaultType dpar
 		if sc.isSchemaSpecified2(e.TableName, 1) {
 			sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
 		} else {
-			return []*dparser.FieldColumn{{Table: e.TableName.Parts[0], Name: e.ColumnName.Normalize()}}
+			return []*dparser.FieldColumn{{Table: e.TableName.Parts[0], Name: string(e.ColumnName)}}
 		}
 	default:
 		t := reflect.TypeOf(e).Name()
@@ -507,7 +507,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 
 			// ignore the content of subquery as it will be in different ScopeStmt
 			tables = []*dparser.Table{{
-				AsName:    t.As.Alias.Normalize(),
+				AsName:    string(t.As.Alias),
 				Name:      name,
 				IsLateral: t.Lateral,
 			}}
@@ -515,7 +515,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 			if sc.isSchemaSpecified2(tt, 1) {
 				sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
 			} else {
-				tables = []*dparser.Table{{AsName: t.As.Alias.Normalize(), Name: tt.Parts[0]}}
+				tables = []*dparser.Table{{AsName: string(t.As.Alias), Name: tt.Parts[0]}}
 			}
 		case *tree.StatementSource:
 			sc.lastError = lib.NewUnsupportedError("referencing source like [table] is not supported")
@@ -534,7 +534,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 			if sc.isSchemaSpecifiedTableName(tt) {
 				sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
 			} else {
-				tables = []*dparser.Table{{AsName: t.As.Alias.Normalize(), Name: tt.Table()}}
+				tables = []*dparser.Table{{AsName: string(t.As.Alias), Name: tt.Table()}}
 			}
 		case *tree.TableRef:
 			sc.lastError = lib.NewUnsupportedError("numeric table reference is not supported")
@@ -581,7 +581,7 @@ func (sc *scopeCollector) collectJoinReferences(j *tree.JoinTableExpr) ([]*dpars
 		case *tree.UsingJoinCond:
 			// todo: not supporting the same column name?
 			for _, col := range c.Cols {
-				fields = append(fields, &dparser.Field{Columns: []*dparser.FieldColumn{{Table: "", Name: col.Normalize(), Type: dparser.FieldCondition}}})
+				fields = append(fields, &dparser.Field{Columns: []*dparser.FieldColumn{{Table: "", Name: string(col), Type: dparser.FieldCondition}}})
 			}
 		default:
 			sc.lastError = lib.NewUnsupportedError(
diff --git a/database/postgres/pservice/parser/collect_table_names.go b/database/postgres/pservice/parser/collect_table_names.go
index 3b24c31..307f3d7 100644
--- a/database/postgres/pservice/parser/collect_table_names.go
+++ b/database/postgres/pservice/parser/collect_table_names.go
@@ -46,7 +46,7 @@ func CollectTableNamesInSchema(stmt *parser.Statement, targetSchema string) ([]s
 func (tc *tableCollector) getTableNames() []string {
 	s := lib.NewSet[string]()
 	for _, t := range tc.tables {
-		s.Add(t.name.Normalize())
+		s.Add(string(t.name))
 	}
 
 	return s.Values()
@@ -80,7 +80,7 @@ func (tc *tableCollector) pushCteTables(s *tree.Select) {
 
 	var ts []string
 	for _, cte := range s.With.CTEList {
-		ts = append(ts, cte.Name.Alias.Normalize())
+		ts = append(ts, string(cte.Name.Alias))
 	}
 	tc.cteTables = append(tc.cteTables, ts)
 }
@@ -111,7 +111,7 @@ func (tc *tableCollector) addTableIfNotDerived(asName tree.Name, tName *tree.Tab
 		))
 		return
 	}
-	if !tc.isCteTable(tName.TableName.Normalize()) {
+	if !tc.isCteTable(string(tName.TableName)) {
 		tc.tables = append(tc.tables, &table{
 			name:  tName.TableName,
 			alias: asName,
-- 
2.43.0


From d0d9614acf33fc4ce1021c6d9086cdd82716753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:38 +0000
Subject: [PATCH 60/60] fix: take a plan row with a quoted name containing a
 colon for a plan row

---
 .../postgres/pservice/explain_analyze_tree_builder.go    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/database/postgres/pservice/explain_analyze_tree_builder.go b/database/postgres/pservice/explain_analyze_tree_builder.go
index baf4abb..09701a6 100644
--- a/database/postgres/pservice/explain_analyze_tree_builder.go
+++ b/database/postgres/pservice/explain_analyze_tree_builder.go
@@ -84,7 +84,7 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 			continue
 		}
 		if prevLineType == analyzeLineInfo {
-			if infoRowReg.MatchString(line) {
+			if isInfoRow(line) {
 				nodeLines = append(nodeLines, line)
 				continue
 			} else {
@@ -94,7 +94,7 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 				}
 			}
 		}
-		if infoRowReg.MatchString(line) {
+		if isInfoRow(line) {
 			nodeLines = append(nodeLines, line)
 			prevLineType = analyzeLineInfo
 		} else if arrowRowReg.MatchString(line) {
@@ -127,3 +127,8 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 
 	return lineNodes, sLine
 }
+
+// isInfoRow tells whether the line describes a plan row. A plan row can have ": " too, in a quoted name.
+func isInfoRow(line string) bool {
+	return infoRowReg.MatchString(line) && !strings.HasPrefix(strings.TrimSpace(line), "->")
+}
-- 
2.43.0

