// Package gen holds the generators shared by several checks.
package gen

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/fakedb"
	"verif/harness/tool"
)

func Pick[T any](t *rapid.T, label string, xs ...T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}

func Chance(t *rapid.T, label string, percent int) bool {
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-percent
}

// Subset draws a non-repeating, ordered selection of n elements.
func Subset[T any](t *rapid.T, label string, xs []T, n int) []T {
	rest := append([]T(nil), xs...)
	var r []T
	for i := 0; i < n && len(rest) > 0; i++ {
		k := rapid.IntRange(0, len(rest)-1).Draw(t, label)
		r = append(r, rest[k])
		rest = append(append([]T(nil), rest[:k]...), rest[k+1:]...)
	}
	return r
}

var tableNames = []string{"users", "todos", "orders", "order_items", "t1", "_log", "tasks2", "AuditLog", "Users", "a_rather_long_table_name_for_a_test_of_index_names"}
var lowerNames = func() (r []string) {
	for _, n := range tableNames {
		if n == strings.ToLower(n) {
			r = append(r, n)
		}
	}
	return
}()
var colNames = []string{"id", "name", "email", "user_id", "created_at", "status", "kind", "v1", "_x", "is_admin", "pk1",
	"an_extremely_long_column_name_number_one", "an_extremely_long_column_name_number_two", "due_date"}

type CatOpt struct {
	MinTables, MaxTables int
	MaxCols              int
	Unsafe               bool // allow column names that need quoting
	ExtraIndexes         int
}

var unsafeCols = []string{"first-name", "naïve", "with space", "cost$", "日付", "a.b"}

// Catalog draws a set of tables in the backend's schema (column names distinct within a table).
func Catalog(t *rapid.T, backend string, o CatOpt) *fakedb.Catalog {
	schema := tool.Schema(backend)
	c := &fakedb.Catalog{}
	n := rapid.IntRange(o.MinTables, o.MaxTables).Draw(t, "tables")
	names := tableNames
	if backend == "mysql" {
		names = lowerNames // known finding mysql-upper-case-table
	}
	for i, name := range Subset(t, "table", names, n) {
		tb := &fakedb.Table{Schema: schema, Name: name}
		names := Subset(t, "col", colNames, rapid.IntRange(2, o.MaxCols).Draw(t, "cols"))
		for _, cn := range names {
			tb.Columns = append(tb.Columns, fakedb.Column{Name: cn})
		}
		if o.Unsafe && Chance(t, "unsafe", 40) {
			tb.Columns = append(tb.Columns, fakedb.Column{Name: Pick(t, "unsafecol", unsafeCols...)})
		}
		if Chance(t, "haspk", 85) {
			pk := Subset(t, "pkcol", names, Pick(t, "pkn", 1, 1, 1, 2, 2, 3, 4))
			pn := "PRIMARY"
			if backend != "mysql" {
				pn = name + "_pkey"
			}
			tb.Indexes = append(tb.Indexes, fakedb.Index{Name: pn, Columns: pk, Primary: true, Unique: true})
		}
		extra := rapid.IntRange(0, o.ExtraIndexes).Draw(t, "idxs")
		if o.ExtraIndexes > 0 && Chance(t, "manyidxs", 5) {
			extra = rapid.IntRange(8, 24).Draw(t, "idxs")
		}
		for j := 0; j < extra; j++ {
			tb.Indexes = append(tb.Indexes, fakedb.Index{Name: fmt.Sprintf("ix_%d_%d", i, j), Unique: Chance(t, "uniq", 20),
				Columns: Subset(t, "idxcol", names, rapid.IntRange(1, 3).Draw(t, "idxn"))})
		}
		c.Tables = append(c.Tables, tb)
	}
	return c
}

// Quote quotes an identifier in the backend's SQL.
func Quote(backend, id string) string {
	if backend == "mysql" {
		return "`" + strings.ReplaceAll(id, "`", "``") + "`"
	}
	return `"` + strings.ReplaceAll(id, `"`, `""`) + `"`
}

// SimpleQuery draws a query over one or two tables with at most five referenced columns per table.
func SimpleQuery(t *rapid.T, backend string, cat *fakedb.Catalog) string {
	q := func(s string) string { return Quote(backend, s) }
	tbs := Subset(t, "qtable", cat.Tables, rapid.IntRange(1, 2).Draw(t, "qtables"))
	var sel, cond []string
	for _, tb := range tbs {
		cols := Subset(t, "qcol", tb.ColNames(), rapid.IntRange(1, 4).Draw(t, "qcols"))
		k := rapid.IntRange(0, len(cols)).Draw(t, "split")
		for i, c := range cols {
			ref := q(tb.Name) + "." + q(c)
			if i < k {
				cond = append(cond, fmt.Sprintf("%s %s %d", ref, Pick(t, "op", "=", ">", "<>"), i))
			} else {
				sel = append(sel, ref)
			}
		}
	}
	if len(sel) == 0 {
		sel = []string{"1"}
	}
	s := "SELECT " + strings.Join(sel, ", ") + " FROM " + q(tbs[0].Name)
	if len(tbs) == 2 {
		s += " JOIN " + q(tbs[1].Name) + " ON " + q(tbs[0].Name) + "." + q(tbs[0].Columns[0].Name) + " = " + q(tbs[1].Name) + "." + q(tbs[1].Columns[0].Name)
	}
	if len(cond) > 0 {
		s += " WHERE " + strings.Join(cond, Pick(t, "conn", " AND ", " OR "))
	}
	return s
}

// IndexText draws an index in the -i notation for an existing table; about one in eight names something missing.
func IndexText(t *rapid.T, cat *fakedb.Catalog) string {
	tb := cat.Tables[rapid.IntRange(0, len(cat.Tables)-1).Draw(t, "itable")]
	var safe []string
	for _, c := range tb.ColNames() {
		if IsWord(c) {
			safe = append(safe, c)
		}
	}
	cols := Subset(t, "icol", safe, rapid.IntRange(1, 3).Draw(t, "icols"))
	if Chance(t, "missing", 12) {
		cols = append(cols, "no_such_column")
	}
	return tb.Name + ":" + strings.Join(cols, "+")
}

func IsWord(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		b := s[i]
		if !(b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z') {
			return false
		}
	}
	return true
}
