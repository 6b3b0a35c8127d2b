package c04

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/fakedb"
	"verif/harness/gen"
	"verif/harness/sqlgen"
	"verif/harness/tool"
	"verif/harness/vt"
	"verif/harness/wild"
)

func TestMain(m *testing.M) { vt.Main(m) }

func check(c *vt.C, backend string, ct *fakedb.Catalog, sql string, got []string) {
	fold := backend == "mysql"
	seen := map[string]bool{}
	prevT, prevN := "", 0
	var prev []string
	for _, g := range got {
		if seen[g] {
			c.Fatalf("%s is suggested twice", g)
		}
		seen[g] = true
		i := strings.Index(g, ":")
		tn, cols := g[:i], strings.Split(g[i+1:], "+")
		tb := ct.Find(tool.Schema(backend), tn)
		if tb == nil {
			c.Fatalf("%s: there is no such table", g)
		}
		inCols := map[string]bool{}
		allPK := true
		for _, col := range cols {
			if !tb.Has(col, fold) {
				c.Fatalf("%s: the table has no column %q", g, col)
			}
			k := strings.ToLower(col)
			if inCols[k] {
				c.Fatalf("%s: column %q twice in one index", g, col)
			}
			inCols[k] = true
			if !strings.Contains(strings.ToLower(sql), k) {
				c.Fatalf("%s: the query does not mention %q", g, col)
			}
			pk := false
			for _, p := range tb.PK() {
				pk = pk || p == col || fold && strings.EqualFold(p, col)
			}
			allPK = allPK && pk
		}
		if allPK {
			c.Fatalf("%s consists of primary key columns only", g)
		}
		for _, ix := range tb.Indexes {
			if have, want := strings.Join(ix.Columns, "+"), strings.Join(cols, "+"); have == want || fold && strings.EqualFold(have, want) {
				c.Fatalf("%s exists already as %s", g, ix.Name)
			}
		}
		if tn < prevT || tn == prevT && (len(cols) < prevN || len(cols) == prevN && less(cols, prev)) {
			c.Fatalf("%s is out of order (after %s:%s)", g, prevT, strings.Join(prev, "+"))
		}
		prevT, prevN, prev = tn, len(cols), cols
	}
}

func less(a, b []string) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func run(c *vt.C, backend string) {
	ct := gen.Catalog(c.T, backend, gen.CatOpt{MinTables: 1, MaxTables: 2, MaxCols: 5, ExtraIndexes: 3})
	s := tool.Schema(backend)
	for _, n := range []string{"users", "todos"} {
		if ct.Find(s, n) == nil {
			tb := &fakedb.Table{Schema: s, Name: n, Columns: []fakedb.Column{{Name: "id"}, {Name: "name"}, {Name: "email"}}}
			if gen.Chance(c.T, "pk", 50) {
				pn := "PRIMARY"
				if backend != "mysql" {
					pn = n + "_pkey"
				}
				tb.Indexes = append(tb.Indexes, fakedb.Index{Name: pn, Columns: []string{"id"}, Primary: true, Unique: true})
			}
			if gen.Chance(c.T, "ix", 50) {
				tb.Indexes = append(tb.Indexes, fakedb.Index{Name: "ix_" + n, Columns: gen.Subset(c.T, "ixc", []string{"id", "name", "email"}, rapid.IntRange(1, 3).Draw(c.T, "ixn"))})
			}
			ct.Tables = append(ct.Tables, tb)
		}
	}
	sql, what := wild.Stmt(c.T, backend == "mysql", ct)
	c.Input("backend: %s\nschema:\n%squery (%s): %q", backend, ct, what, sql)
	got, srv, err := sqlgen.Suggest(backend, ct.Clone(), sql)
	if srv.Harness != nil {
		c.Skip(srv.Harness.Error())
	}
	if err != nil {
		c.Class(what + ": error")
		return
	}
	check(c, backend, ct, sql, got)
	c.Class(what + ": report")
	if len(got) > 0 {
		c.NonTrivial(fmt.Sprint(ct, sql))
	}
}

func TestSound(t *testing.T) {
	vt.Check(t, "mysql", 4500, func(c *vt.C) { run(c, "mysql") })
	vt.Check(t, "postgres", 5500, func(c *vt.C) { run(c, "postgres") })
	vt.Check(t, "hasura", 1200, func(c *vt.C) { run(c, "hasura") })
}
