package c08

import (
	"fmt"
	"os"
	"regexp"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/fakedb"
	"verif/harness/gen"
	"verif/harness/sqlgen"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// outside applies f to the parts of an SQL text outside quotes.
func outside(s string, f func(string) string) string {
	var sb strings.Builder
	cur := ""
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch != '\'' && ch != '"' && ch != '`' {
			cur += string(ch)
			continue
		}
		sb.WriteString(f(cur))
		cur = ""
		j := i + 1
		for j < len(s) && s[j] != ch {
			j++
		}
		sb.WriteString(s[i : j+1])
		i = j
	}
	sb.WriteString(f(cur))
	return sb.String()
}

var aliasReg = regexp.MustCompile(`\b([adozADOZ])([0-9]+)\b`)

// aliasAsColumn gives one table or derived table, used with qualified columns only, the name of a column. A column
// goes before a table of the same name in both databases, so this changes nothing.
func aliasAsColumn(c *vt.C, backend string, cat *fakedb.Catalog, sql string) (string, bool) {
	uses := map[string]int{} // occurrences that are not qualifiers
	var order []string
	for _, m := range aliasReg.FindAllStringIndex(sql, -1) {
		a := strings.ToLower(sql[m[0]:m[1]])
		if a[0] == 'o' {
			continue
		}
		if _, ok := uses[a]; !ok {
			order = append(order, a)
			uses[a] = 0
		}
		rest := strings.TrimLeft(sql[m[1]:], "\"`")
		if !strings.HasPrefix(rest, ".") {
			uses[a]++
		}
	}
	var from, to []string
	for _, a := range order {
		if uses[a] == 1 {
			from = append(from, a)
		}
	}
	tables := map[string]bool{}
	for _, t := range cat.Tables {
		tables[strings.ToLower(t.Name)] = true
	}
	for _, t := range cat.Tables {
		for _, col := range t.Columns {
			n := strings.ToLower(col.Name)
			if !tables[n] && !strings.ContainsAny(col.Name, "\"`") && !aliasReg.MatchString(col.Name) {
				to = append(to, n)
			}
		}
	}
	if len(from) == 0 || len(to) == 0 {
		return "", false
	}
	old := rapid.SampledFrom(from).Draw(c.T, "old alias")
	name := rapid.SampledFrom(to).Draw(c.T, "new alias")
	var sb strings.Builder
	last := 0
	for _, m := range aliasReg.FindAllStringIndex(sql, -1) {
		if strings.ToLower(sql[m[0]:m[1]]) != old {
			continue
		}
		sb.WriteString(sql[last:m[0]])
		if m[0] > 0 && strings.ContainsAny(sql[m[0]-1:m[0]], "\"`") {
			sb.WriteString(name)
		} else {
			sb.WriteString(gen.Quote(tool.Dialect(backend), name))
		}
		last = m[1]
	}
	return sb.String() + sql[last:], true
}

type variant struct {
	name string
	sql  string
	cat  *fakedb.Catalog
}

func variants(c *vt.C, backend string, cat *fakedb.Catalog, sql string) []variant {
	var vs []variant
	vs = append(vs, variant{"the same run again", sql, cat})
	space := func(s string) string {
		var sb strings.Builder
		if s == "" {
			return "" // inside a doubled quote
		}
		if backend != "mysql" && strings.TrimSpace(s) == "" {
			// known finding quoted-names-joined-over-newline: "a"<newline>"b" is read as one name
			return s + gen.Pick(c.T, "ws", "", " ", " /* id = 1 */ ")
		}
		for i := 0; i < len(s); i++ {
			if s[i] == ' ' {
				sb.WriteString(gen.Pick(c.T, "ws", " ", "\n", "  \t ", " /* id = 1 */ ", "\n-- WHERE name = 'x'\n", "\r\n"))
			} else {
				sb.WriteByte(s[i])
			}
		}
		return sb.String()
	}
	vs = append(vs, variant{"other white space and comments", outside(sql, space), cat})
	vs = append(vs, variant{"keywords and unquoted names in lower case", outside(sql, strings.ToLower), cat})
	ren := aliasReg.ReplaceAllStringFunc(sql, func(a string) string { 
		// in PostgreSQL a quoted A3 is another name than a3, an unquoted one is the same
		return "nn_" + a
	})
	vs = append(vs, variant{"aliases renamed", ren, cat})
	if t, ok := aliasAsColumn(c, backend, cat, sql); ok {
		vs = append(vs, variant{"an alias renamed to the name of a column", t, cat})
		c.Class("alias named like a column")
	}
	// a catalogue with the same tables in another order, other index names, unrelated tables and indexes
	n := cat.Clone()
	rev := &fakedb.Catalog{}
	for i := len(n.Tables) - 1; i >= 0; i-- {
		tb := n.Tables[i]
		for j := range tb.Indexes {
			if !tb.Indexes[j].Primary {
				tb.Indexes[j].Name = fmt.Sprintf("other_%d_%d", i, len(tb.Indexes)-j)
			}
		}
		rev.Tables = append(rev.Tables, tb)
		if gen.Chance(c.T, "extra", 50) {
			x := &fakedb.Table{Schema: tb.Schema, Name: fmt.Sprintf("extra_table_%d", i), Columns: append([]fakedb.Column(nil), tb.Columns...)}
			x.Indexes = append(x.Indexes, fakedb.Index{Name: fmt.Sprintf("extra_ix_%d", i), Columns: []string{tb.Columns[0].Name}})
			rev.Tables = append(rev.Tables, x)
		}
	}
	vs = append(vs, variant{"the catalogue's order, index names and unrelated tables changed", sql, rev})
	if strings.HasSuffix(sql, ";") {
		vs = append(vs, variant{"semicolon removed", strings.TrimSuffix(sql, ";"), cat})
	} else {
		vs = append(vs, variant{"semicolon added", sql + gen.Pick(c.T, "semi", ";", " ;\n", "; "), cat})
	}
	return vs
}

func run(c *vt.C, backend string) {
	cat := gen.Catalog(c.T, backend, gen.CatOpt{MinTables: 1, MaxTables: 3, MaxCols: 5, ExtraIndexes: 2})
	g := sqlgen.New(c.T, backend == "mysql", cat)
	sql := g.Statement()
	if g.Tables == 0 || sqlgen.MaxConds(g.Roles) > 4 {
		c.Skip("out of bounds")
	}
	c.Input("backend: %s\nschema:\n%ssql: %s", backend, cat, sql)
	base, srv, err := sqlgen.Suggest(backend, cat.Clone(), sql)
	if srv.Harness != nil {
		c.Skip(srv.Harness.Error())
	}
	if err != nil {
		c.Class("not understood")
		return
	}
	vs := variants(c, backend, cat, sql)
	for _, v := range vs {
		got, srv, err := sqlgen.Suggest(backend, v.cat.Clone(), v.sql)
		if srv.Harness != nil {
			c.Skip(srv.Harness.Error())
		}
		if err != nil {
			c.Fatalf("%s: the run now fails: %v\nvariant sql: %s\nvariant schema:\n%s", v.name, err, v.sql, v.cat)
		}
		if d := sqlgen.Diff(got, base); d != "" {
			c.Fatalf("%s: the suggestions change: %s\nvariant sql: %s\nvariant schema:\n%s", v.name, d, v.sql, v.cat)
		}
	}
	if backend == "postgres" {
		got, srv, err := sqlgen.Suggest("hasura", cat.Clone(), sql)
		if srv.Harness != nil {
			c.Skip(srv.Harness.Error())
		}
		if err != nil {
			c.Fatalf("the same SQL seen through Hasura fails: %v", err)
		}
		if d := sqlgen.Diff(got, base); d != "" {
			c.Fatalf("the same SQL seen through Hasura gives other suggestions: %s", d)
		}
	}
	if len(base) > 1 {
		c.NonTrivial(fmt.Sprint(cat, sql))
	}
}

func pages(c *vt.C, backend string) {
	cat := gen.Catalog(c.T, backend, gen.CatOpt{MinTables: 1, MaxTables: 3, MaxCols: 5, ExtraIndexes: 2})
	sql := gen.SimpleQuery(c.T, backend, cat)
	c.Input("backend: %s\nschema:\n%ssql: %s", backend, cat, sql)
	out := tool.Scratch("p.html")
	once := func() string {
		srv := tool.NewServer(backend, cat.Clone())
		defer srv.Close()
		srv.SQL = sql
		defer os.Remove(out)
		q := sql
		if backend == "hasura" {
			q = "query { x { id } }"
		}
		if err := tool.Run(srv, tool.Suggest{Backend: backend, Query: q, Output: out, Vars: `{"a":1,"b":{"c":2}}`}); err != nil {
			if srv.Harness != nil {
				c.Skip(srv.Harness.Error())
			}
			c.Fatalf("the run failed: %v", err)
		}
		b, err := os.ReadFile(out)
		if err != nil {
			c.Fatalf("%v", err)
		}
		return string(b)
	}
	a := once()
	for i := rapid.IntRange(1, 3).Draw(c.T, "repeats"); i > 0; i-- {
		if b := once(); a != b {
			c.Fatalf("two runs on the same database wrote different reports:\n%s\n----\n%s", a, b)
		}
	}
	c.NonTrivial(fmt.Sprint(cat, sql))
}

// TestKnown shows the finding quoted-names-joined-over-newline.
func TestKnown(t *testing.T) {
	vt.Check(t, "quoted_names", 5, func(c *vt.C) {
		cat := &fakedb.Catalog{Tables: []*fakedb.Table{{Schema: "public", Name: "users", Columns: []fakedb.Column{{Name: "id"}, {Name: "name"}}}}}
		a := gen.Pick(c.T, "alias", "u", "x1", "other")
		sql := fmt.Sprintf("SELECT \"%s\".\"id\" FROM \"users\"\n\"%s\"", a, a)
		c.Input("sql: %s", sql)
		if _, _, err := sqlgen.Suggest("postgres", cat, sql); err != nil && strings.Contains(err.Error(), "users"+a) {
			vt.KnownFinding("quoted-names-joined-over-newline")
		}
	})
}

func TestMetamorphic(t *testing.T) {
	vt.Check(t, "mysql", 900, func(c *vt.C) { run(c, "mysql") })
	vt.Check(t, "postgres", 700, func(c *vt.C) { run(c, "postgres") })
	vt.Check(t, "same_report", 500, func(c *vt.C) { pages(c, gen.Pick(c.T, "backend", tool.Backends...)) })
}
