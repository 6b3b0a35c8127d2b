package c05

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/fakedb"
	"verif/harness/gen"
	"verif/harness/sqlgen"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// Wide queries: many columns referred to, some of them compared; the answer is known by construction.
func run(c *vt.C, backend string, maxCols, maxCond int) {
	schema := tool.Schema(backend)
	cat := &fakedb.Catalog{}
	roles := map[sqlgen.Base]bool{}
	q := func(s string) string { return gen.Quote(backend, s) }
	var sel, cond, from, tail []string
	nt := rapid.IntRange(1, 2).Draw(c.T, "tables")
	for i := 0; i < nt; i++ {
		tb := &fakedb.Table{Schema: schema, Name: fmt.Sprintf("wide%d", i)}
		n := rapid.IntRange(1, maxCols).Draw(c.T, "cols")
		if gen.Chance(c.T, "many", 60) {
			n = maxCols + 1 - n
		}
		var cols []string
		for k := 0; k < n; k++ {
			// names whose alphabetical order differs from their order in the table
			cols = append(cols, fmt.Sprintf("%s%d", gen.Pick(c.T, "p", "c", "b", "x_", "a"), (k*37)%101))
		}
		seen := map[string]bool{}
		var uniq []string
		for _, x := range cols {
			if !seen[x] {
				seen[x] = true
				uniq = append(uniq, x)
				tb.Columns = append(tb.Columns, fakedb.Column{Name: x})
			}
		}
		cols = uniq
		if gen.Chance(c.T, "pk", 60) {
			pn := "PRIMARY"
			if backend != "mysql" {
				pn = tb.Name + "_pkey"
			}
			tb.Indexes = append(tb.Indexes, fakedb.Index{Name: pn, Columns: gen.Subset(c.T, "pkc", cols, rapid.IntRange(1, 3).Draw(c.T, "pkn")), Primary: true, Unique: true})
		}
		cat.Tables = append(cat.Tables, tb)
		from = append(from, q(tb.Name))
		used := gen.Subset(c.T, "used", cols, len(cols)-rapid.IntRange(0, len(cols)).Draw(c.T, "unused"))
		k := rapid.IntRange(0, min(maxCond, len(used))).Draw(c.T, "nconds")
		if gen.Chance(c.T, "manyconds", 40) {
			k = min(maxCond, len(used)) - k
		}
		for j, col := range used {
			ref := q(tb.Name) + "." + q(col)
			if nt == 1 && gen.Chance(c.T, "unqualified", 50) {
				ref = q(col)
			}
			roles[sqlgen.Base{Table: tb.Name, Column: col}] = j < k
			if j < k {
				cond = append(cond, ref+" = 1")
				if gen.Chance(c.T, "also", 30) {
					sel = append(sel, ref)
				}
				continue
			}
			switch rapid.IntRange(0, 3).Draw(c.T, "where") {
			case 0:
				tail = append(tail, ref)
			default:
				sel = append(sel, ref)
			}
		}
	}
	if len(sel) == 0 {
		sel = []string{"1"}
	}
	sql := "SELECT " + strings.Join(sel, ", ") + " FROM " + strings.Join(from, ", ")
	if len(cond) > 0 {
		sql += " WHERE " + strings.Join(cond, " AND ")
	}
	if len(tail) > 0 {
		sql += gen.Pick(c.T, "tail", " ORDER BY ", " GROUP BY ") + strings.Join(tail, ", ")
	}
	c.Input("backend: %s\ncatalogue:\n%ssql: %s", backend, cat, sql)
	want := sqlgen.Expected(roles, cat, backend == "mysql")
	got, srv, err := sqlgen.Suggest(backend, cat.Clone(), sql)
	if srv.Harness != nil {
		c.Skip(srv.Harness.Error())
	}
	if err != nil {
		c.Fatalf("no suggestion: %v", err)
	}
	if d := sqlgen.Diff(got, want); d != "" {
		c.Fatalf("%s", d)
	}
	c.ClassIf(sqlgen.MaxConds(roles) >= 4, "four or more compared columns")
	c.ClassIf(len(roles) > 15, "more than 15 columns")
	if len(roles) > 7 || sqlgen.MaxConds(roles) >= 4 {
		c.NonTrivial(sql)
	}
}

func TestWide(t *testing.T) {
	vt.Check(t, "mysql", 350, func(c *vt.C) { run(c, "mysql", 60, 4) })
	vt.Check(t, "postgres", 350, func(c *vt.C) { run(c, "postgres", 60, 4) })
	vt.Check(t, "hasura", 150, func(c *vt.C) { run(c, "hasura", 60, 4) })
	vt.Check(t, "compared", 60, func(c *vt.C) { run(c, gen.Pick(c.T, "be", tool.Backends...), 12, 7) })
}
