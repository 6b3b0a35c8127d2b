package c12

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/fakedb"
	"verif/harness/gen"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

type node struct {
	Text                  string      `json:"text"`
	Title                 string      `json:"title"`
	TableName             string      `json:"tableName"`
	EstimatedInitCost     json.Number `json:"estimatedInitCost"`
	EstimatedCost         json.Number `json:"estimatedCost"`
	EstimatedReturnedRows json.Number `json:"estimatedReturnedRows"`
	ActualTimeFirstRow    json.Number `json:"actualTimeFirstRow"`
	ActualTimeAvg         json.Number `json:"actualTimeAvg"`
	ActualReturnedRows    json.Number `json:"actualReturnedRows"`
	ActualLoopCount       json.Number `json:"actualLoopCount"`
	Children              []*node     `json:"children"`
}

// want is a line of the generated plan with everything it says, kept apart from its text.
type want struct {
	node
	titlePrefixOnly bool
	children        []*want
}

type g struct {
	c     *vt.C
	lines int
	lits  int
	max   int
}

func (g *g) n(label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(g.c.T, label) }

var tables = []string{"users", "tasks", "order_items", "u", "T2", "_log", "joined", "on_call", "count_tbl", "日付", "naïve"}
var words = []string{"tables", "on call", "x on y", "a join b", "12:30:00", "2022-10-01 00:00:00", "note: read", "(cost=9.9 rows=9)",
	"(cost=1..2)", "(actual time=7..8 rows=9 loops=10)", "-> Sort", "Sort: z.z", " Filter: (q.q", "Aggregate: max(w.w", "it''s", "100%", "(", ")", "a (b", "    -> x", "(never executed)", "日本 on 語", "\\n"}

func (g *g) lit() string {
	if g.n("lit", 0, 2) > 0 {
		return strconv.Itoa(g.n("num", 0, 999))
	}
	g.lits++
	s := gen.Pick(g.c.T, "word", words...)
	if gen.Chance(g.c.T, "word2", 30) {
		s += " " + gen.Pick(g.c.T, "word", words...)
	}
	return "'" + s + "'"
}

func (g *g) table() string {
	// MySQL prints table names without quotes; names of other than word characters are outside the bounds
	return gen.Pick(g.c.T, "table", tables[:9]...)
}

func (g *g) col() string {
	return gen.Pick(g.c.T, "col", "id", "name", "`status`", "created_at", "user_id", "description", "`on`", "`key`")
}

func (g *g) cond(t string) string {
	s := fmt.Sprintf("(%s.%s %s %s)", t, g.col(), gen.Pick(g.c.T, "op", "=", ">", "<=", "<>", "like"), g.lit())
	for gen.Chance(g.c.T, "and", 25) {
		s = "(" + s[1:len(s)-1] + ")" + gen.Pick(g.c.T, "conn", " and ", " or ") + fmt.Sprintf("(%s.%s = %s)", g.table(), g.col(), g.lit())
		s = "(" + s + ")"
		break
	}
	return s
}

// op draws an operation: its text, its title and the table it works on.
func (g *g) op() (text, title, table string, prefixOnly, noChildren bool) {
	t, u := g.table(), g.table()
	switch g.n("op", 0, 29) {
	case 0, 1:
		return "Table scan on " + t, "Table scan", t, false, true
	case 2:
		return "Index scan on " + t + " using " + g.col(), "Index scan", t, false, true
	case 3:
		return fmt.Sprintf("Index range scan on %s using %s over (%s < %s)", t, "idx_a", g.lit(), g.col()), "Index range scan", t, false, true
	case 4:
		return fmt.Sprintf("Index range scan on %s using idx_a over (%s <= a <= %s), with index condition: (%s.a <> %s)", t, g.lit(), g.lit(), t, g.lit()), "Index range scan", t, false, true
	case 5, 6:
		return fmt.Sprintf("Single-row index lookup on %s using PRIMARY (%s=%s.%s)", t, g.col(), u, g.col()), "Single-row index lookup", t, false, true
	case 7:
		return fmt.Sprintf("Index lookup on %s using idx (%s=%s)", t, g.col(), g.lit()), "Index lookup", t, false, true
	case 8, 9, 10:
		s := g.cond(t)
		tb := t
		if strings.HasPrefix(s, "((") {
			tb = "" // a conjunction; the table is not recognised
		}
		return "Filter: " + s, "Filter", tb, false, false
	case 11:
		return fmt.Sprintf("Filter: (%s = %s.%s)", g.lit(), t, g.col()), "Filter", "", false, false
	case 12:
		return fmt.Sprintf("Sort: %s.%s%s", t, g.col(), gen.Pick(g.c.T, "dir", "", " DESC", ", limit input to 10 row(s) per chunk")), "Sort", t, false, false
	case 13:
		return fmt.Sprintf("Sort: (case %s.a when %s then 1 end) DESC", t, g.lit()), "Sort", "", false, false
	case 14:
		return fmt.Sprintf("Aggregate: %s(%s.%s)", gen.Pick(g.c.T, "f", "count", "sum", "max"), t, g.col()), "Aggregate", t, false, false
	case 15:
		return "Aggregate: count(0)", "Aggregate", "", false, false
	case 16:
		return fmt.Sprintf("Group aggregate: sum(%s.a), group_concat(%s)", t, g.lit()), "Group aggregate", "", false, false
	case 17, 18:
		k := gen.Pick(g.c.T, "jk", "Nested loop inner join", "Nested loop left join")
		return k, k, "", false, false
	case 19:
		k := gen.Pick(g.c.T, "jk", "Inner hash join", "Left hash join")
		return k + fmt.Sprintf(" (%s.a = %s.b)", t, u), k, "", false, false
	case 20:
		return fmt.Sprintf("Left hash join (%s.a = %s.b), extra conditions: (%s.c = %s)", t, u, t, g.lit()), "Left hash join", "", false, false
	case 21:
		return gen.Pick(g.c.T, "semi", "Nested loop antijoin", "Nested loop semijoin"), "", "", true, false
	case 22:
		return "Table scan on <temporary>", "Table scan", "", false, true
	case 23:
		return gen.Pick(g.c.T, "misc", "Stream results", "Materialize", "Hash", "Temporary table with deduplication", "Append", "Aggregate using temporary table"), "", "", true, false
	case 24:
		return "Materialize CTE " + t + " if needed", "", "", true, false
	case 25:
		return fmt.Sprintf("Limit: %d row(s)", g.n("lim", 0, 100)), "Limit", "", false, false
	case 26:
		return "Limit/Offset: 10/5 row(s)", "Limit/Offset", "", false, false
	case 27:
		return "Rows fetched before execution", "", "", true, true
	case 28:
		return "Zero rows (no matching row in const table)", "", "", true, true
	default:
		return "Window aggregate with buffering: sum(" + t + ".a) OVER (ORDER BY " + t + ".b ) ", "Window aggregate with buffering", "", false, false
	}
}

func (g *g) num(label string, maxInt, dec int) string {
	s := strconv.Itoa(g.n(label, 0, maxInt))
	if dec > 0 {
		s += fmt.Sprintf(".%0*d", dec, g.n(label+"dec", 0, pow10(dec)-1))
	}
	return s
}

func pow10(n int) int {
	r := 1
	for i := 0; i < n; i++ {
		r *= 10
	}
	return r
}

// cost is printed with or without decimals, depending on the version.
func (g *g) cost(label string, big int) json.Number {
	return json.Number(g.num(label, big, gen.Pick(g.c.T, label+"form", 2, 2, 2, 0, 1, 3)))
}

func (g *g) line(depth int) *want {
	text, title, table, prefixOnly, leaf := g.op()
	w := &want{titlePrefixOnly: prefixOnly}
	w.Title, w.TableName = title, table
	if prefixOnly {
		w.Title = text
	}
	s := strings.Repeat("    ", depth) + "-> " + text
	pad := ""
	big := gen.Pick(g.c.T, "mag", 9, 999, 9999999)
	switch g.n("numbers", 0, 9) {
	case 0, 4:
		pad = " " // no estimate printed
	case 1:
		w.EstimatedCost = g.cost("cost", big)
		s += fmt.Sprintf("  (cost=%s)", w.EstimatedCost)
	case 2, 3:
		w.EstimatedInitCost = g.cost("icost", big)
		w.EstimatedCost = g.cost("cost", big)
		w.EstimatedReturnedRows = json.Number(g.num("rows", big, 0))
		s += fmt.Sprintf("  (cost=%s..%s rows=%s)", w.EstimatedInitCost, w.EstimatedCost, w.EstimatedReturnedRows)
	default:
		w.EstimatedCost = g.cost("cost", big)
		w.EstimatedReturnedRows = json.Number(g.num("rows", big, 0))
		s += fmt.Sprintf("  (cost=%s rows=%s)", w.EstimatedCost, w.EstimatedReturnedRows)
	}
	switch g.n("actual", 0, 6) {
	case 0:
		s += pad + " (never executed)"
	case 1:
	default:
		w.ActualTimeFirstRow = json.Number(g.num("first", big, 3))
		w.ActualTimeAvg = json.Number(g.num("avg", big, 3))
		w.ActualReturnedRows = json.Number(g.num("arows", big, 0))
		w.ActualLoopCount = json.Number(g.num("loops", big, 0))
		s += pad + fmt.Sprintf(" (actual time=%s..%s rows=%s loops=%s)", w.ActualTimeFirstRow, w.ActualTimeAvg, w.ActualReturnedRows, w.ActualLoopCount)
	}
	w.Text = s
	g.lines++
	if !leaf {
		k := g.n("children", 0, 3)
		if g.max > 50 {
			k = g.n("children", 1, 4)
		}
		for i := 0; i < k && g.lines < g.max; i++ {
			w.children = append(w.children, g.line(depth+1))
		}
	} else if gen.Chance(g.c.T, "under", 10) && g.lines < g.max {
		w.children = append(w.children, g.line(depth+1)) // e.g. the plan that fills a temporary table
	}
	return w
}

func flatten(ws []*want, out *[]string) {
	for _, w := range ws {
		*out = append(*out, w.Text)
		flatten(w.children, out)
	}
}

func num(n json.Number) string {
	if n == "" {
		return "not printed"
	}
	f, err := strconv.ParseFloat(string(n), 64)
	if err != nil {
		return string(n)
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func compare(c *vt.C, path string, got []*node, want []*want) {
	if len(got) != len(want) {
		c.Fatalf("%s: %d steps shown, the plan has %d there", path, len(got), len(want))
	}
	for i, w := range want {
		n := got[i]
		p := fmt.Sprintf("%s/%d", path, i)
		if n.Text != w.Text {
			c.Fatalf("%s: text %q shown, want %q", p, n.Text, w.Text)
		}
		for _, f := range []struct {
			name string
			g, w json.Number
		}{
			{"estimated initial cost", n.EstimatedInitCost, w.EstimatedInitCost}, {"estimated cost", n.EstimatedCost, w.EstimatedCost},
			{"estimated rows", n.EstimatedReturnedRows, w.EstimatedReturnedRows}, {"time of first row", n.ActualTimeFirstRow, w.ActualTimeFirstRow},
			{"average time", n.ActualTimeAvg, w.ActualTimeAvg}, {"actual rows", n.ActualReturnedRows, w.ActualReturnedRows}, {"loops", n.ActualLoopCount, w.ActualLoopCount},
		} {
			if num(f.g) != num(f.w) {
				c.Fatalf("%s: %s: shown %s, the line %q says %s", p, f.name, num(f.g), w.Text, num(f.w))
			}
		}
		if n.TableName != w.TableName {
			c.Fatalf("%s: table shown %q, want %q for line %q", p, n.TableName, w.TableName, w.Text)
		}
		if w.titlePrefixOnly {
			if n.Title == "" || !strings.HasPrefix(w.Title, n.Title) {
				c.Fatalf("%s: title %q is not the start of the operation %q", p, n.Title, w.Title)
			}
		} else if n.Title != w.Title && !(noParens(w) && n.Title != "" && strings.HasPrefix(w.Title, n.Title)) {
			c.Fatalf("%s: title shown %q, want %q for line %q", p, n.Title, w.Title, w.Text)
		}
		compare(c, p, n.Children, w.children)
	}
}

// Lines without any figures get a shorter title: the operation's first word.
func noParens(w *want) bool {
	return w.EstimatedCost == "" && w.ActualLoopCount == "" && !strings.HasSuffix(w.Text, "(never executed)")
}

func query(t *rapid.T) (*fakedb.Catalog, string) {
	cat := &fakedb.Catalog{Tables: []*fakedb.Table{{Schema: tool.Schema("mysql"), Name: "t", Columns: []fakedb.Column{{Name: "a"}, {Name: "b"}}}}}
	return cat, "SELECT a FROM t WHERE b = 1"
}

func run(c *vt.C, lines []string) ([]*node, error) {
	cat, q := query(c.T)
	srv := tool.NewServer("mysql", cat)
	srv.Explain = lines
	out := tool.Scratch("c12.html")
	defer os.Remove(out)
	if err := tool.Run(srv, tool.Suggest{Backend: "mysql", Query: q, Output: out}); err != nil {
		return nil, err
	}
	p, err := tool.ReadReport(out)
	if err != nil {
		c.Fatalf("unreadable report: %v", err)
	}
	r, err := p.Decode()
	if err != nil {
		c.Fatalf("unreadable report: %v", err)
	}
	s, err := r.SuggestOf("mysql")
	if err != nil {
		c.Fatalf("%v", err)
	}
	var got []*node
	for _, raw := range s.AnalyzeNodes {
		n := &node{}
		if err := json.Unmarshal(raw, n); err != nil {
			c.Fatalf("unreadable plan step: %v", err)
		}
		got = append(got, n)
	}
	return got, nil
}

func plan(c *vt.C, max int) (*g, []*want, []string) {
	g := &g{c: c, max: max}
	var ws []*want
	for i := g.n("roots", 1, 3); i > 0; i-- {
		ws = append(ws, g.line(0))
	}
	var lines []string
	flatten(ws, &lines)
	return g, ws, lines
}

func depth(ws []*want) int {
	d := 0
	for _, w := range ws {
		d = max(d, 1+depth(w.children))
	}
	return d
}

func TestPlan(t *testing.T) {
	for _, size := range []struct {
		name   string
		max, n int
	}{{"plans", 12, 1500}, {"large_plans", 120, 120}} {
		vt.Check(t, size.name, size.n, func(c *vt.C) {
			g, ws, lines := plan(c, size.max)
			if gen.Chance(c.T, "trailing", 70) {
				lines = append(lines, "")
			}
			c.Input("EXPLAIN ANALYZE output:\n%s", strings.Join(lines, "\n"))
			got, err := run(c, lines)
			if err != nil {
				c.Fatalf("no report: %v", err)
			}
			compare(c, "plan", got, ws)
			c.ClassIf(g.lits > 0, "text values")
			c.ClassIf(len(ws) > 1, "several top-level steps")
			c.ClassIf(depth(ws) >= 4, "depth 4 or more")
			if len(lines) > 3 && depth(ws) > 1 {
				c.NonTrivial(strings.Join(lines, "\n"))
			}
		})
	}
	// A line that skips a level belongs nowhere: no report rather than a wrong tree.
	vt.Check(t, "skipped_level", 150, func(c *vt.C) {
		_, _, lines := plan(c, 8)
		at := rapid.IntRange(0, len(lines)).Draw(c.T, "at")
		d := 0
		if at > 0 {
			d = (len(lines[at-1])-len(strings.TrimLeft(lines[at-1], " ")))/4 + 1
		}
		bad := strings.Repeat("    ", d+rapid.IntRange(1, 3).Draw(c.T, "skip")) + "-> Table scan on t  (cost=1.00 rows=1)"
		lines = append(lines[:at:at], append([]string{bad}, lines[at:]...)...)
		c.Input("EXPLAIN ANALYZE output:\n%s", strings.Join(lines, "\n"))
		got, err := run(c, lines)
		if err == nil {
			c.Fatalf("a plan with a line at a level that has no parent gave a report with %d top-level steps", len(got))
		}
		c.NonTrivial(strings.Join(lines, "\n"))
	})
}
