package c09

import (
	"fmt"
	"os"
	"testing"

	"verif/harness/fakedb"
	"verif/harness/gen"
	"verif/harness/sqlgen"
	"verif/harness/tool"
	"verif/harness/vt"
	"verif/harness/wild"
)

func TestMain(m *testing.M) { vt.Main(m) }

func cat(c *vt.C, backend string) *fakedb.Catalog {
	// at most six columns: the number of suggestions grows with the factorial of the compared columns (known finding)
	cat := gen.Catalog(c.T, backend, gen.CatOpt{MinTables: 1, MaxTables: 2, MaxCols: 5, ExtraIndexes: 1})
	s := tool.Schema(backend)
	for _, n := range []string{"users", "todos"} {
		if cat.Find(s, n) == nil {
			cat.Tables = append(cat.Tables, &fakedb.Table{Schema: s, Name: n, Columns: []fakedb.Column{{Name: "id"}, {Name: "name"}, {Name: "email"}}})
		}
	}
	return cat
}

func run(c *vt.C, backend string) {
	ct := cat(c, backend)
	sql, what := wild.Stmt(c.T, backend == "mysql", ct)
	c.Input("backend: %s\nschema:\n%squery (%s): %q", backend, ct, what, sql)
	got, srv, err := sqlgen.Suggest(backend, ct.Clone(), sql)
	if srv.Harness != nil {
		c.Skip(srv.Harness.Error())
	}
	for _, st := range srv.Log {
		if st.Kind != "explain" && st.Kind != "catalog" {
			c.Fatalf("a statement other than EXPLAIN and catalogue queries was sent: %q", st.SQL)
		}
	}
	c.Class(what)
	if err != nil {
		if err.Error() == "" {
			c.Fatalf("the run failed with an error without any text")
		}
		c.Class(what + ": error")
		c.NonTrivial(fmt.Sprint(ct, sql))
		return
	}
	c.Class(what + ": report")
	if len(got) > 0 {
		c.NonTrivial(fmt.Sprint(ct, sql))
	}
}

func TestAnyText(t *testing.T) {
	vt.Check(t, "mysql", 5000, func(c *vt.C) { run(c, "mysql") })
	vt.Check(t, "postgres", 6000, func(c *vt.C) { run(c, "postgres") })
	vt.Check(t, "hasura", 1500, func(c *vt.C) { run(c, "hasura") })
	// a file that existed before a failing run stays or is replaced by a complete report
	vt.Check(t, "output_file", 1200, func(c *vt.C) {
		backend := gen.Pick(c.T, "backend", tool.Backends...)
		ct := cat(c, backend)
		sql, what := wild.Stmt(c.T, backend == "mysql", ct)
		c.Input("backend: %s\nschema:\n%squery (%s): %q", backend, ct, what, sql)
		srv := tool.NewServer(backend, ct)
		defer srv.Close()
		srv.SQL = sql
		q := sql
		if backend == "hasura" {
			q = "query { x { id } }"
		}
		out := tool.Scratch("o.html")
		defer os.Remove(out)
		if err := os.WriteFile(out, []byte("earlier report"), 0o644); err != nil {
			c.Skip(err.Error())
		}
		err := tool.Run(srv, tool.Suggest{Backend: backend, Query: q, Output: out})
		if srv.Harness != nil {
			c.Skip(srv.Harness.Error())
		}
		b, rerr := os.ReadFile(out)
		if rerr != nil {
			c.Fatalf("the earlier file is gone: %v", rerr)
		}
		if err != nil {
			if string(b) != "earlier report" {
				c.Fatalf("the run failed (%v) and yet changed the output file", err)
			}
			c.NonTrivial(fmt.Sprint(ct, sql))
			return
		}
		if _, err := tool.ParseHTML(b); err != nil {
			c.Fatalf("the run succeeded without writing a complete report: %v", err)
		}
	})
}
