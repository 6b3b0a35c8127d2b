package c06

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/fakedb"
	"verif/harness/gen"
	"verif/harness/sqlgen"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func schema(t *rapid.T, backend string) *fakedb.Catalog {
	cat := gen.Catalog(t, backend, gen.CatOpt{MinTables: 1, MaxTables: 3, MaxCols: 5, ExtraIndexes: 2})
	if gen.Chance(t, "camel", 20) {
		tb := cat.Tables[0]
		tb.Columns = append(tb.Columns, fakedb.Column{Name: gen.Pick(t, "camelname", "userId", "CreatedAt", "order", "with space")})
	}
	return cat
}

func run(c *vt.C, backend string) {
	cat := schema(c.T, backend)
	g := sqlgen.New(c.T, false, cat)
	sql := g.Statement()
	c.Input("backend: %s\nschema:\n%ssql: %s", backend, cat, sql)
	for i := 0; i < g.Avoided; i++ {
		vt.Exclude("derived-table-pseudo-columns")
	}
	if g.Tables == 0 {
		c.Skip("names no table")
	}
	if sqlgen.MaxConds(g.Roles) > 5 {
		c.Skip("too many candidates")
	}
	want := sqlgen.Expected(g.Roles, cat, false)
	got, srv, err := sqlgen.Suggest(backend, cat.Clone(), sql)
	if srv.Harness != nil {
		c.Skip(srv.Harness.Error())
	}
	if err != nil {
		c.Fatalf("the statement got no suggestion: %v\nroles: %v", err, g.Roles)
	}
	if d := sqlgen.Diff(got, want); d != "" {
		c.Fatalf("%s\nroles (true: compared): %v", d, g.Roles)
	}
	for f := range g.Feat {
		c.Class(f)
	}
	c.ClassIf(len(want) == 0, "no candidate")
	if len(want) > 1 {
		c.NonTrivial(fmt.Sprint(cat, sql))
	}
}

func TestPostgres(t *testing.T) {
	vt.Check(t, "postgres", 2500, func(c *vt.C) { run(c, "postgres") })
	vt.Check(t, "hasura", 700, func(c *vt.C) { run(c, "hasura") })
}
