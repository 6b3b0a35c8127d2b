package c03

import (
	"fmt"
	"os"
	"regexp"
	"strings"
	"testing"

	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/samber/lo"
	"pgregory.net/rapid"

	"verif/harness/fakedb"
	"verif/harness/gen"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// reference grammar: WORD ":" WORD ("+" WORD)*
func parse(s string) (string, []string, bool) {
	i := strings.IndexByte(s, ':')
	if i < 0 || !gen.IsWord(s[:i]) {
		return "", nil, false
	}
	cols := strings.Split(s[i+1:], "+")
	for _, c := range cols {
		if !gen.IsWord(c) {
			return "", nil, false
		}
	}
	return s[:i], cols, true
}

func word(t *rapid.T, label string) string {
	return rapid.StringMatching(`[A-Za-z0-9_]{1,12}`).Draw(t, label)
}

var junk = []string{" ", "\n", "\r\n", "\t", "\x00", "`", `"`, "'", ";", "--", "/*", "*/", ",", ")", "(", "+", ":", "::", "++", ".", "-", "é", "日", "ｕ", "\u2028", "$", "#", "\\", "%", "@", "=", "\xff"}

func drawText(t *rapid.T) string {
	var sb strings.Builder
	sb.WriteString(word(t, "table"))
	sb.WriteString(":")
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "cols"); i < n; i++ {
		if i > 0 {
			sb.WriteString("+")
		}
		sb.WriteString(word(t, "col"))
	}
	s := sb.String()
	for k := gen.Pick(t, "mutations", 0, 0, 0, 1, 1, 2, 3); k > 0; k-- {
		pos := rapid.IntRange(0, len(s)).Draw(t, "pos")
		switch rapid.IntRange(0, 3).Draw(t, "mut") {
		case 0, 1:
			s = s[:pos] + gen.Pick(t, "junk", junk...) + s[pos:]
		case 2:
			end := pos + rapid.IntRange(1, 3).Draw(t, "len")
			if end <= len(s) {
				s = s[:pos] + s[end:]
			}
		case 3:
			s = gen.Pick(t, "frame", "\n"+s, s+"\n", s+"\nusers:a", "x\n"+s, s+" ", " "+s, s+"+", s+":", ":"+s, s+"); DROP TABLE users; --")
		}
	}
	if gen.Chance(t, "arbitrary", 10) {
		s = rapid.String().Draw(t, "any")
	}
	return s
}

func render(it *dmodel.IndexTarget) (string, []string) {
	var cs []string
	for _, c := range it.Columns {
		cs = append(cs, c.Name)
	}
	return it.TableName, cs
}

func TestGrammar(t *testing.T) {
	vt.Check(t, "grammar", 40000, func(c *vt.C) {
		s := drawText(c.T)
		c.Input("text: %q", s)
		tb, cols, ok := parse(s)
		it, err := dmodel.NewIndexTargetFromText(s)
		if (err == nil) != ok {
			c.Fatalf("well-formed: %v, but parsing returned %+v, %v", ok, it, err)
		}
		c.ClassIf(ok, "well-formed")
		c.ClassIf(!ok, "malformed")
		if !ok {
			if strings.Contains(s, ":") {
				c.NonTrivial(s)
			}
			return
		}
		gt, gc := render(it)
		if gt != tb || strings.Join(gc, "+") != strings.Join(cols, "+") || len(gc) != len(cols) {
			c.Fatalf("understood as table %q columns %q", gt, gc)
		}
		if !it.IsSafe() {
			c.Fatalf("a well-formed text is not considered safe")
		}
		vm := it.ToViewModel()
		var names []string
		for _, x := range vm.Columns {
			names = append(names, x.Name)
		}
		if back := vm.TableName + ":" + strings.Join(names, "+"); back != s {
			c.Fatalf("written back as %q", back)
		}
		if len(cols) > 1 {
			c.NonTrivial(s)
		}
	})
	vt.Check(t, "lists", 4000, func(c *vt.C) {
		var ss []string
		for i := rapid.IntRange(0, 5).Draw(c.T, "n"); i > 0; i-- {
			ss = append(ss, drawText(c.T))
		}
		c.Input("texts: %q", ss)
		all := true
		for _, s := range ss {
			_, _, ok := parse(s)
			all = all && ok
		}
		its, err := dmodel.NewIndexTargetsFromTexts(ss)
		if (err == nil) != all {
			c.Fatalf("all well-formed: %v, but parsing returned %d targets, %v", all, len(its), err)
		}
		if all {
			if len(its) != len(ss) {
				c.Fatalf("%d texts became %d targets", len(ss), len(its))
			}
			for i, it := range its {
				tb, cs := render(it)
				if got := tb + ":" + strings.Join(cs, "+"); got != ss[i] {
					c.Fatalf("target %d is %q, want %q", i, got, ss[i])
				}
			}
		}
		if len(ss) > 1 {
			c.NonTrivial(fmt.Sprintf("%q", ss))
		}
	})
}

// A malformed text among the requested indexes stops the run before it changes or executes anything.
func TestRejectedBeforeAnyChange(t *testing.T) {
	vt.Check(t, "rejected_first", 500, func(c *vt.C) {
		backend := gen.Pick(c.T, "backend", tool.Backends...)
		cat := gen.Catalog(c.T, backend, gen.CatOpt{MinTables: 1, MaxTables: 2, MaxCols: 4})
		sql := gen.SimpleQuery(c.T, backend, cat)
		var ix []string
		for i := rapid.IntRange(0, 2).Draw(c.T, "good"); i > 0; i-- {
			ix = append(ix, gen.IndexText(c.T, cat))
		}
		bad := drawText(c.T)
		if _, _, ok := parse(bad); ok {
			bad += gen.Pick(c.T, "end", "\n", "`", `"`, ";", "+", ")")
		}
		p := rapid.IntRange(0, len(ix)).Draw(c.T, "at")
		ix = append(ix[:p:p], append([]string{bad}, ix[p:]...)...)
		c.Input("backend: %s\nschema:\n%squery: %s\n-i: %q", backend, cat, sql, ix)
		srv := tool.NewServer(backend, cat)
		defer srv.Close()
		srv.SQL = sql
		out := tool.Scratch("c03.html")
		defer os.Remove(out)
		err := tool.Run(srv, tool.Suggest{Backend: backend, Query: sql, Examine: true, Indexes: ix, Output: out})
		if srv.Harness != nil {
			c.Skip(srv.Harness.Error())
		}
		if err == nil {
			c.Fatalf("the malformed index text %q was accepted", bad)
		}
		for _, st := range srv.Log {
			if st.Kind != "explain" && st.Kind != "catalog" {
				c.Fatalf("the index text %q is malformed, and this was still sent: [%s] %s", bad, st.Kind, st.SQL)
			}
		}
		if _, e := os.Stat(out); e == nil {
			c.Fatalf("a report was written although the run failed")
		}
		c.NonTrivial(fmt.Sprintf("%s %q", backend, ix))
	})
}

var hostileCols = []string{"a`b", `a"b`, "x`), ADD INDEX `y` (`z", `x"); DROP TABLE users; --`, "c;d", "e'f", "g h", "i,j", "`", "日付", "k)", "-- c", "/*", "l\\", "é", "'", "x'); DROP TABLE users; --", "m''n", "' OR '", "o\\'p"}

// form is a statement without the contents of its strings and with lists of them shortened.
func form(sql string) (string, bool) {
	var b strings.Builder
	for i := 0; i < len(sql); i++ {
		if sql[i] != '\'' {
			b.WriteByte(sql[i])
			continue
		}
		for i++; ; i++ {
			if i >= len(sql) {
				return "", false
			}
			if sql[i] != '\'' {
				continue
			}
			if i+1 < len(sql) && sql[i+1] == '\'' {
				i++
				continue
			}
			break
		}
		b.WriteString("?")
	}
	s := list.ReplaceAllString(dollar.ReplaceAllString(b.String(), "?"), "?")
	return strings.Join(strings.Fields(s), " "), true
}

var (
	dollar = regexp.MustCompile(`\$\d+`)
	list   = regexp.MustCompile(`\?(\s*,\s*\?)+`)
)

var forms = map[string]map[string]bool{}

// catalogForms gives the statements asked of the catalogue for a query over a table without peculiarities.
func catalogForms(backend string) map[string]bool {
	if forms[backend] == nil {
		m := map[string]bool{}
		srv := tool.NewServer(backend, &fakedb.Catalog{Tables: []*fakedb.Table{{Schema: tool.Schema(backend), Name: "users", Columns: []fakedb.Column{{Name: "id"}, {Name: "name"}}}}})
		defer srv.Close()
		srv.SQL = "SELECT name FROM users WHERE id = 1"
		_ = tool.Run(srv, tool.Suggest{Backend: backend, Query: srv.SQL})
		for _, st := range srv.Log {
			if st.Kind == "catalog" {
				f, _ := form(st.SQL)
				m[f] = true
			}
		}
		forms[backend] = m
	}
	return forms[backend]
}

// Names found in the schema are never turned into anything but a plain index on those columns.
func TestHostileSchemaNames(t *testing.T) {
	vt.Check(t, "hostile_names", 1500, func(c *vt.C) {
		backend := gen.Pick(c.T, "backend", tool.Backends...)
		cat := gen.Catalog(c.T, backend, gen.CatOpt{MinTables: 1, MaxTables: 3, MaxCols: 3})
		tb := gen.Pick(c.T, "which", cat.Tables...)
		for _, h := range gen.Subset(c.T, "hostile", hostileCols, rapid.IntRange(1, 2).Draw(c.T, "nh")) {
			tb.Columns = append(tb.Columns, fakedb.Column{Name: h})
		}
		if gen.Chance(c.T, "hostiletable", 50) {
			tb.Name = gen.Pick(c.T, "tname", hostileCols...)
		}
		sql := gen.SimpleQuery(c.T, backend, cat)
		c.Input("backend: %s\nschema:\n%squery: %s", backend, cat, sql)
		srv := tool.NewServer(backend, cat)
		defer srv.Close()
		srv.SQL = sql
		err := tool.Run(srv, tool.Suggest{Backend: backend, Query: sql, Examine: true})
		// what is asked of the catalogue has the form it has for a plain table, whatever the names are
		plain := catalogForms(backend)
		for _, st := range srv.Log {
			if st.Kind != "catalog" {
				continue
			}
			if f, ok := form(st.SQL); !ok || !plain[f] {
				c.Fatalf("a name changed what is asked of the catalogue: %s", st.SQL)
			}
			c.Class("catalogue asked")
		}
		if srv.Harness != nil {
			c.Skip(srv.Harness.Error())
		}
		for _, st := range srv.Log {
			switch st.Kind {
			case "explain", "catalog", "run", "drop":
				if st.Kind == "run" && backend != "hasura" && st.SQL != sql {
					c.Fatalf("sent a statement that is not the query: %s", st.SQL)
				}
			case "create":
				if st.Failed {
					c.Fatalf("an index that cannot be created was tried: %s", st.SQL)
				}
				if !lo.ContainsBy(cat.Tables, func(x *fakedb.Table) bool { return x.Name == st.Table }) || !gen.IsWord(st.Table) {
					c.Fatalf("an index on %q was created", st.Table)
				}
				for _, x := range st.Columns {
					if !gen.IsWord(x) {
						c.Fatalf("column %q reached a statement", x)
					}
				}
				c.Class("examined next to a hostile name")
			default:
				c.Fatalf("sent [%s] %s", st.Kind, st.SQL)
			}
		}
		c.ClassIf(err != nil, "refused")
		c.ClassIf(err == nil, "handled")
		c.NonTrivial(backend + cat.String() + sql)
	})
}
