package c10

import (
	"fmt"
	"os"
	"regexp"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/fakedb"
	"verif/harness/gen"
	"verif/harness/sqlgen"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

var names = []string{"id", "name", "email", "user_id", "kind", "v1"}

// column names that need quotes in PostgreSQL (mixed case ones are folded by MySQL)
var odd = []string{"userId", "CreatedAt", "order", "group", "with space", "a-b", "naïve", `q"t`, "Id2"}

// names that become equal when joined, folded or cut
var alike = []string{"a", "b", "c", "a_b", "b_c", "c_a", "a_", "_a", "ab"}
var alikeOdd = []string{"a,b", "a b", "a-b", "a+b", "b,a"}
var alikeCase = []string{"A", "B", "A_b", "aB"}

func table(t *rapid.T, backend, schema, name string) *fakedb.Table {
	tb := &fakedb.Table{Schema: schema, Name: name}
	var cols []string
	cols = append(cols, gen.Subset(t, "col", names, rapid.IntRange(2, 4).Draw(t, "n"))...)
	o := odd
	if backend == "mysql" {
		o = []string{"userId", "CreatedAt", "order", "with space", "a-b", "Id2"}
	}
	if gen.Chance(t, "alike", 35) {
		cols = gen.Subset(t, "col", alike, rapid.IntRange(2, 5).Draw(t, "n"))
		o = alikeOdd
		if backend != "mysql" {
			o = append(append([]string(nil), o...), alikeCase...)
		}
	}
	cols = append(cols, gen.Subset(t, "odd", o, rapid.IntRange(0, 2).Draw(t, "nodd"))...)
	for _, c := range cols {
		if backend != "mysql" && gen.Chance(t, "dropped before", 6) {
			tb.Columns = append(tb.Columns, fakedb.Column{Name: "gone", Dropped: true})
		}
		tb.Columns = append(tb.Columns, fakedb.Column{Name: c})
	}
	if gen.Chance(t, "pk", 75) {
		pn := "PRIMARY"
		if backend != "mysql" {
			pn = name + "_pkey"
		}
		tb.Indexes = append(tb.Indexes, fakedb.Index{Name: pn, Columns: gen.Subset(t, "pkcol", cols, rapid.IntRange(1, 4).Draw(t, "pkn")), Primary: true, Unique: true})
	}
	k := rapid.IntRange(0, 6).Draw(t, "idxs")
	if gen.Chance(t, "manyidxs", 6) {
		k = rapid.IntRange(7, 30).Draw(t, "idxs")
	}
	for j := 0; j < k; j++ {
		parts := gen.Subset(t, "part", cols, gen.Pick(t, "parts", 1, 1, 2, 2, 3, 3, 4, 5))
		if gen.Chance(t, "expr", 25) {
			e := gen.Pick(t, "exprtext", "lower(name)", "(v1 + 1)", "(kind)")
			if backend != "mysql" {
				// the texts PG_GET_INDEXDEF gives, some of them with a quoted name first or last
				e = gen.Pick(t, "exprdef", e, `("userId" || "Id2")`, `"left"("Id2", 3)`, `COALESCE("userId", "CreatedAt")`, `("order")`, `lower("q""t")`, `("with space" || "group")`)
			}
			at := rapid.IntRange(0, len(parts)).Draw(t, "at")
			parts = append(parts[:at:at], append([]string{e}, parts[at:]...)...)
		}
		// names chosen so that their order and the order of creation differ, and the same name is used in several tables (MySQL)
		in := fmt.Sprintf("%s%d", gen.Pick(t, "ixname", "ix_", "a", "z", "PK_", "k-"), j)
		if backend != "mysql" {
			in += "_" + name
		}
		tb.Indexes = append(tb.Indexes, fakedb.Index{Name: in, Columns: parts, Unique: gen.Chance(t, "uniq", 20)})
	}
	return tb
}

type theCase struct {
	backend, sql string
	schema       string
	cat, own     *fakedb.Catalog
	roles        map[sqlgen.Base]bool
	decoy        int
}

func draw(c *vt.C, backend string) *theCase {
	schema := tool.Schema(backend)
	others := []string{"other", "archive", "information"}
	switch {
	case backend == "hasura" || gen.Chance(c.T, "usual schema", 50):
	case backend == "postgres":
		schema = gen.Pick(c.T, "schema", "app", "Main", "with space", "pub", "a.b")
		others = append(others, "public", strings.ToLower(schema)+"_")
	default:
		schema = gen.Pick(c.T, "schema", "shop", "prod-db", "db2")
		others = append(others, "appdb")
	}
	cat := &fakedb.Catalog{}
	tnames := gen.Subset(c.T, "tname", []string{"users", "todos", "orders", "user", "users2"}, rapid.IntRange(1, 3).Draw(c.T, "tables"))
	for _, n := range tnames {
		cat.Tables = append(cat.Tables, table(c.T, backend, schema, n))
	}
	own := &fakedb.Catalog{Tables: append([]*fakedb.Table(nil), cat.Tables...)}
	decoy := 0
	for _, n := range tnames {
		if gen.Chance(c.T, "decoy", 45) {
			d := table(c.T, backend, gen.Pick(c.T, "dschema", others...), n)
			if gen.Chance(c.T, "first", 50) {
				cat.Tables = append([]*fakedb.Table{d}, cat.Tables...)
			} else {
				cat.Tables = append(cat.Tables, d)
			}
			decoy++
		}
	}
	if gen.Chance(c.T, "unrelated", 50) {
		cat.Tables = append(cat.Tables, table(c.T, backend, schema, "unrelated"))
	}
	// a query over the tables with known columns compared and referred to
	roles := map[sqlgen.Base]bool{}
	q := func(s string) string { return gen.Quote(backend, s) }
	var sel, cond, from []string
	for _, tb := range own.Tables {
		from = append(from, q(tb.Name))
		cols := gen.Subset(c.T, "used", tb.ColNames(), rapid.IntRange(1, 4).Draw(c.T, "nused"))
		k := rapid.IntRange(0, min(3, len(cols))).Draw(c.T, "nconds")
		for i, col := range cols {
			n := col
			if backend == "mysql" {
				n = strings.ToLower(col)
			}
			roles[sqlgen.Base{Table: tb.Name, Column: n}] = i < k
			ref := q(tb.Name) + "." + q(col)
			if i < k {
				cond = append(cond, ref+" = 1")
			} else {
				sel = append(sel, ref)
			}
		}
	}
	if len(sel) == 0 {
		sel = []string{"1"}
	}
	sql := "SELECT " + strings.Join(sel, ", ") + " FROM " + strings.Join(from, ", ")
	if len(cond) > 0 {
		sql += " WHERE " + strings.Join(cond, " AND ")
	}
	return &theCase{backend, sql, schema, cat, own, roles, decoy}
}

func run(c *vt.C, backend string) {
	x := draw(c, backend)
	cat, own, roles, sql, decoy := x.cat, x.own, x.roles, x.sql, x.decoy
	schema := x.schema
	if backend == "postgres" && gen.Chance(c.T, "qualified", 25) {
		// the schema of the connection may be named
		for _, tb := range own.Tables {
			q := gen.Quote(backend, tb.Name)
			sql = strings.ReplaceAll(sql, q+".", gen.Quote(backend, schema)+"."+q+".")
			sql = regexp.MustCompile(`( FROM |, )`+regexp.QuoteMeta(q)+`(,| WHERE|$)`).ReplaceAllString(sql, "${1}"+gen.Quote(backend, schema)+"."+q+"${2}")
		}
		c.Class("schema named")
	}
	c.Input("backend: %s (schema %s)\ncatalogue:\n%ssql: %s", backend, schema, cat, sql)
	want := sqlgen.Expected(roles, own, backend == "mysql")
	got, srv, err := sqlgen.SuggestIn(backend, schema, cat.Clone(), sql)
	if srv.Harness != nil {
		c.Skip(srv.Harness.Error())
	}
	if err != nil {
		c.Fatalf("no suggestion: %v", err)
	}
	if d := sqlgen.Diff(got, want); d != "" {
		c.Fatalf("%s", d)
	}
	bare := &fakedb.Catalog{}
	for _, tb := range own.Tables {
		x := *tb
		x.Indexes = nil
		for _, ix := range tb.Indexes {
			if ix.Primary {
				x.Indexes = append(x.Indexes, ix)
			}
		}
		bare.Tables = append(bare.Tables, &x)
	}
	hidden := len(sqlgen.Expected(roles, bare, backend == "mysql")) - len(want)
	c.ClassIf(hidden > 0, "an existing index hides a candidate")
	c.ClassIf(decoy > 0, "same table name in another schema")
	c.ClassIf(len(want) == 0, "nothing left to suggest")
	if hidden > 0 || decoy > 0 {
		c.NonTrivial(fmt.Sprint(cat, sql))
	}
}

func TestCatalogue(t *testing.T) {
	for _, b := range tool.Backends {
		b := b
		vt.Check(t, b, 1500, func(c *vt.C) { run(c, b) })
	}
}

// A run whose reading of the catalogue or of the plan fails, at once or after some rows, says so and reports nothing.
func TestUnreadable(t *testing.T) {
	for _, b := range tool.Backends {
		b := b
		vt.Check(t, "unreadable_"+b, 250, func(c *vt.C) {
			x := draw(c, b)
			mode := rapid.IntRange(0, 4).Draw(c.T, "mode")
			after := rapid.IntRange(0, 6).Draw(c.T, "after")
			c.Input("backend: %s\ncatalogue:\n%ssql: %s\nfailure %d (after %d rows)", b, x.cat, x.sql, mode, after)
			for k := 0; ; k++ {
				srv := tool.NewServer(b, x.cat.Clone())
				srv.Schema = x.schema
				srv.SQL = x.sql
				i, hit := 0, ""
				srv.Fault = func(st *fakedb.Stmt) error {
					i++
					if i-1 != k {
						return nil
					}
					hit = st.Kind
					if b != "hasura" {
						if mode >= 2 {
							return &fakedb.RowFault{After: after}
						}
						return fmt.Errorf("injected failure")
					}
					return []error{
						&fakedb.HTTPFault{Status: 400, Body: `{"error":"query execution failed","path":"$.args"}`},
						&fakedb.HTTPFault{Status: 500, Body: "oops"},
						&fakedb.HTTPFault{Drop: true},
						&fakedb.HTTPFault{Status: 200, Body: `{"result_type":"TuplesOk","result":[["a"`},
						&fakedb.HTTPFault{Partial: true, Body: `{"result_type":"TuplesOk","result":[]}`},
					}[mode]
				}
				out := tool.Scratch("s.html")
				q := x.sql
				if b == "hasura" {
					q = "query { x { id } }"
				}
				err := tool.Run(srv, tool.Suggest{Backend: b, Query: q, Output: out})
				_, serr := os.Stat(out)
				os.Remove(out)
				srv.Close()
				if hit == "" {
					break
				}
				if srv.Harness != nil {
					c.Skip(srv.Harness.Error())
				}
				if err == nil {
					c.Fatalf("statement %d (%s) failed and the run reported success", k, hit)
				}
				if serr == nil {
					c.Fatalf("statement %d (%s) failed and a report was written (%v)", k, hit, err)
				}
				c.Class("failure at " + hit)
				c.NonTrivial(fmt.Sprint(x.cat, x.sql, mode, k))
			}
		})
	}
}

// What a query says about a table of another schema is never taken for one of the schema read.
func TestOtherSchema(t *testing.T) {
	for _, b := range tool.Backends {
		b := b
		vt.Check(t, "other_schema_"+b, 300, func(c *vt.C) {
			x := draw(c, b)
			own := x.own.Tables[rapid.IntRange(0, len(x.own.Tables)-1).Draw(c.T, "of")]
			q := func(s string) string { return gen.Quote(b, s) }
			schema := gen.Pick(c.T, "other", "other", "archive", "information", "Public", "PUBLIC", "APP", "public2", "pg_catalog", "a.b")
			if x.schema != tool.Schema(b) {
				schema = gen.Pick(c.T, "usual", schema, tool.Schema(b), strings.ToLower(x.schema)+"x")
			}
			if schema == x.schema {
				schema = "other"
			}
			col := q(own.ColNames()[rapid.IntRange(0, len(own.ColNames())-1).Draw(c.T, "col")])
			name := q(schema) + "." + q(own.Name)
			forms := []string{
				"SELECT " + col + " FROM " + name,
				"SELECT a." + col + " FROM " + name + " AS a WHERE a." + col + " = 1",
				"SELECT o.id FROM " + q(x.own.Tables[0].Name) + " AS o JOIN " + name + " AS n ON n." + col + " = 1",
				"SELECT 1 FROM " + q(x.own.Tables[0].Name) + " AS o WHERE EXISTS (SELECT 1 FROM " + name + " AS n WHERE n." + col + " = 1)",
				"SELECT 1 FROM " + q(x.own.Tables[0].Name) + " AS o WHERE 1 IN (SELECT (SELECT MAX(" + col + ") FROM " + name + "))",
			}
			if b != "mysql" {
				db := gen.Pick(c.T, "database", "app", "public", "postgres")
				forms = append(forms,
					"SELECT "+name+"."+col+" FROM "+q(own.Name),
					"SELECT 1 FROM "+q(own.Name)+" WHERE "+name+"."+col+" = 1",
					"SELECT "+name+".* FROM "+q(own.Name),
					"SELECT ("+name+")."+col+" FROM "+q(own.Name),
					"SELECT COUNT("+name+".*) FROM "+q(own.Name),
					"SELECT 1 FROM "+q(own.Name)+" ORDER BY "+name+"."+col,
					"SELECT 1 FROM (SELECT "+col+" FROM "+name+" WHERE "+col+" = 1) AS d",
					"SELECT 1 FROM "+q(own.Name)+" AS o, LATERAL (SELECT "+col+" FROM "+name+") AS d",
					"SELECT 1 FROM "+q(db)+"."+q("public")+"."+q(own.Name)+" WHERE "+col+" = 1",
					"SELECT "+q(db)+"."+q("public")+"."+q(own.Name)+"."+col+" FROM "+q(own.Name))
			}
			x.sql = forms[rapid.IntRange(0, len(forms)-1).Draw(c.T, "form")]
			x.sql = strings.ReplaceAll(x.sql, "o.id", "o."+q(x.own.Tables[0].ColNames()[0]))
			c.Input("backend: %s (schema %s)\ncatalogue:\n%ssql: %s", b, x.schema, x.cat, x.sql)
			got, srv, err := sqlgen.SuggestIn(b, x.schema, x.cat.Clone(), x.sql)
			if srv.Harness != nil {
				c.Skip(srv.Harness.Error())
			}
			if err == nil {
				c.Fatalf("a table of another schema was taken for the one read: %q", got)
			}
			c.NonTrivial(fmt.Sprint(x.cat, x.sql))
		})
	}
}
