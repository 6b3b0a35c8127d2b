package c13

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/fakedb"
	"verif/harness/gen"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

type node struct {
	Text                  string      `json:"text"`
	Title                 string      `json:"title"`
	TableName             string      `json:"tableName"`
	EstimatedInitCost     json.Number `json:"estimatedInitCost"`
	EstimatedCost         json.Number `json:"estimatedCost"`
	EstimatedReturnedRows json.Number `json:"estimatedReturnedRows"`
	EstimatedWidth        json.Number `json:"estimatedWidth"`
	ActualTimeFirstRow    json.Number `json:"actualTimeFirstRow"`
	ActualTimeAvg         json.Number `json:"actualTimeAvg"`
	ActualReturnedRows    json.Number `json:"actualReturnedRows"`
	ActualLoopCount       json.Number `json:"actualLoopCount"`
	Children              []*node     `json:"children"`
}

type want struct {
	node
	lines    []string
	children []*want
}

type g struct {
	c       *vt.C
	analyze bool
	count   int
	lits    int
	plans   int
	max     int
}

func (g *g) n(label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(g.c.T, label) }

var tables = []string{"users", "tasks", "order_items", "on_call", "_log", "count_tbl", "joined"}
var words = []string{"text", "x on y", "a join b", "12:30:00", "note: read", "(cost=0.00..1.00 rows=9 width=9)", "(actual time=7..8 rows=9 loops=10)",
	"->  Sort", "Sort Key: z.z", "API Key: q.q", "Planning Time: 1 ms", "it''s", "100%", "(", ")", "SubPlan 1", "日本 on 語", "CTE x"}

func (g *g) lit() string {
	if g.n("lit", 0, 2) > 0 {
		return strconv.Itoa(g.n("num", 0, 999))
	}
	g.lits++
	s := gen.Pick(g.c.T, "word", words...)
	if gen.Chance(g.c.T, "word2", 30) {
		s += " " + gen.Pick(g.c.T, "word", words...)
	}
	return "'" + s + "'::text"
}

func (g *g) table() string { return gen.Pick(g.c.T, "table", tables...) }
func (g *g) col() string {
	return gen.Pick(g.c.T, "col", "id", "name", "status", "created_at", "user_id", `"on"`)
}

// rel draws a relation as it is printed after "on": possibly quoted, possibly with an alias.
func (g *g) rel() (printed, name string) {
	t := g.table()
	switch g.n("rel", 0, 5) {
	case 0:
		return t + " " + gen.Pick(g.c.T, "alias", "u", "t_1", t+"_1"), t
	case 1:
		return `"Users"`, "Users"
	case 2:
		return `"User" u`, "User"
	}
	return t, t
}

type op struct {
	text, title, table string
	info               []string
	kids               int // children it must have; -1: any number
}

func (g *g) op() op {
	t, u := g.table(), g.table()
	r, name := g.rel()
	filter := func() []string {
		if gen.Chance(g.c.T, "filter", 60) {
			i := []string{fmt.Sprintf("Filter: ((%s)::text = %s)", g.col(), g.lit())}
			if g.analyze {
				i = append(i, fmt.Sprintf("Rows Removed by Filter: %d", g.n("removed", 0, 99999)))
			}
			return i
		}
		return nil
	}
	pre := gen.Pick(g.c.T, "par", "", "", "Parallel ")
	switch g.n("op", 0, 21) {
	case 0, 1, 2:
		return op{pre + "Seq Scan on " + r, pre + "Seq Scan", name, filter(), 0}
	case 3:
		ix := pre + gen.Pick(g.c.T, "ix", "Index Scan using users_pkey", "Index Scan using \"Users-by.name\"", "Index Scan using \"idx: a\"", "Index Scan Backward using _i2", "Index Scan using \"日付\"")
		return op{ix + " on " + r, ix, name, append([]string{fmt.Sprintf("Index Cond: (id = %s)", g.lit())}, filter()...), 0}
	case 4:
		return op{fmt.Sprintf("Index Only Scan using idx_a on %s", r), "Index Only Scan using idx_a", name, []string{fmt.Sprintf("Index Cond: (a = %s.b)", u), "Heap Fetches: 0"}, 0}
	case 5:
		return op{"Bitmap Heap Scan on " + r, "Bitmap Heap Scan", name, []string{fmt.Sprintf("Recheck Cond: (a > %s)", g.lit()), "Heap Blocks: exact=17"}, 1}
	case 6:
		return op{"Bitmap Index Scan on idx_a", "Bitmap Index Scan", "idx_a", []string{fmt.Sprintf("Index Cond: (a > %s)", g.lit())}, 0}
	case 7, 8:
		return op{"Hash Join", "Hash Join", "", append([]string{fmt.Sprintf("Hash Cond: (%s.user_id = %s.id)", t, u)}, g.joinFilter(t, u)...), 2}
	case 9, 10:
		k := gen.Pick(g.c.T, "nl", "Nested Loop", "Nested Loop Left Join", "Nested Loop Anti Join")
		return op{k, k, "", g.joinFilter(t, u), 2}
	case 11:
		return op{"Merge Join", "Merge Join", "", []string{fmt.Sprintf("Merge Cond: (%s.a = %s.b)", t, u)}, 2}
	case 12:
		return op{"Hash", "Hash", "", []string{"Buckets: 65536  Batches: 1  Memory Usage: 3581kB"}, 1}
	case 13:
		return op{"Sort", "Sort", t, []string{fmt.Sprintf("Sort Key: %s.%s%s", t, g.col(), gen.Pick(g.c.T, "desc", "", " DESC", ", "+u+".b")), "Sort Method: quicksort  Memory: 25kB"}, 1}
	case 14:
		return op{"Sort", "Sort", "", []string{fmt.Sprintf("Sort Key: (CASE WHEN (%s.status = 1) THEN %s ELSE NULL::text END) DESC", t, g.lit())}, 1}
	case 15:
		return op{"HashAggregate", "HashAggregate", t, []string{"Group Key: " + t + "." + g.col(), "Batches: 1  Memory Usage: 24kB"}, 1}
	case 16:
		return op{"Aggregate", "Aggregate", "", nil, 1}
	case 17:
		i := []string{"Workers Planned: 2"}
		if g.analyze {
			i = append(i, "Workers Launched: 2")
		}
		return op{"Gather Merge", "Gather Merge", "", i, 1}
	case 18:
		k := gen.Pick(g.c.T, "plain", "Limit", "Materialize", "Unique", "WindowAgg", "LockRows", "Recursive Union", "SetOp Except All")
		return op{k, k, "", nil, gen.Pick(g.c.T, "kids", 1, -1)}
	case 19:
		return op{"Append", "Append", "", nil, -1}
	case 20:
		return op{"CTE Scan on count_tbl count_tbl_1", "CTE Scan", "count_tbl", filter(), 0}
	default:
		return op{"Result", "Result", "", []string{fmt.Sprintf("One-Time Filter: (%s = $0)", g.lit())}, -1}
	}
}

func (g *g) joinFilter(t, u string) []string {
	if gen.Chance(g.c.T, "jf", 40) {
		return []string{fmt.Sprintf("Join Filter: ((%s.a <> %s.b) OR (%s.c = %s))", t, u, t, g.lit())}
	}
	return nil
}

func (g *g) num(label string, maxInt, dec int) string {
	s := strconv.Itoa(g.n(label, 0, maxInt))
	if dec > 0 {
		s += fmt.Sprintf(".%0*d", dec, g.n(label+"dec", 0, 99))
	}
	return s
}

// node prints like ExplainNode in PostgreSQL's explain.c: a plan name on its own line, two spaces per level,
// an arrow for every node but the first.
func (g *g) node(indent int, planName string) *want {
	g.count++
	o := g.op()
	for try := 0; g.max > 50 && o.kids == 0 && try < 3 && indent < 20; try++ {
		o = g.op() // large plans branch more
	}
	w := &want{}
	w.Title, w.TableName = o.title, o.table
	pad := func(k int) string { return strings.Repeat("  ", k) }
	if planName != "" {
		w.lines = append(w.lines, pad(indent)+planName)
		indent++
	}
	s := o.text
	if indent > 0 {
		s = pad(indent) + "->  " + s
		indent += 2
	}
	indent++
	big := gen.Pick(g.c.T, "mag", 9, 999, 9999999)
	w.EstimatedInitCost = json.Number(g.num("icost", big, 2))
	w.EstimatedCost = json.Number(g.num("cost", big, 2))
	w.EstimatedReturnedRows = json.Number(g.num("rows", big, 0))
	w.EstimatedWidth = json.Number(g.num("width", gen.Pick(g.c.T, "wmag", 40, 4000, 1000000), 0))
	s += fmt.Sprintf("  (cost=%s..%s rows=%s width=%s)", w.EstimatedInitCost, w.EstimatedCost, w.EstimatedReturnedRows, w.EstimatedWidth)
	if g.analyze {
		if gen.Chance(g.c.T, "never", 12) {
			s += " (never executed)"
		} else {
			w.ActualTimeFirstRow = json.Number(g.num("first", big, 3))
			w.ActualTimeAvg = json.Number(g.num("avg", big, 3))
			w.ActualReturnedRows = json.Number(g.num("arows", big, 0))
			w.ActualLoopCount = json.Number(g.num("loops", big, 0))
			s += fmt.Sprintf(" (actual time=%s..%s rows=%s loops=%s)", w.ActualTimeFirstRow, w.ActualTimeAvg, w.ActualReturnedRows, w.ActualLoopCount)
		}
	}
	w.lines = append(w.lines, s)
	for _, i := range o.info {
		w.lines = append(w.lines, pad(indent)+i)
	}
	if g.analyze {
		if gen.Chance(g.c.T, "buffers", 70) {
			w.lines = append(w.lines, pad(indent)+fmt.Sprintf("Buffers: shared hit=%d read=%d", g.n("hit", 0, 9999), g.n("read", 0, 99)))
		}
		if gen.Chance(g.c.T, "io", 15) {
			w.lines = append(w.lines, pad(indent)+"I/O Timings: read=0.123")
		}
		if gen.Chance(g.c.T, "worker", 10) {
			w.lines = append(w.lines, pad(indent)+"Worker 0:  Sort Method: quicksort  Memory: 25kB")
		}
	}
	w.Text = strings.Join(w.lines, "\n")
	// initplans and CTEs come first, then the ordinary children, then subplans
	if gen.Chance(g.c.T, "init", 15) && g.count < g.max {
		g.plans++
		w.children = append(w.children, g.node(indent, gen.Pick(g.c.T, "initname", "CTE count_tbl", "CTE joined", "InitPlan 1 (returns $0)", "InitPlan 2 (returns $1,$2)")))
	}
	k := o.kids
	if k < 0 {
		k = g.n("kids", 0, 4)
	}
	for i := 0; i < k && g.count < g.max; i++ {
		w.children = append(w.children, g.node(indent, ""))
	}
	if gen.Chance(g.c.T, "sub", 15) && g.count < g.max {
		g.plans++
		w.children = append(w.children, g.node(indent, gen.Pick(g.c.T, "subname", "SubPlan 1", "SubPlan 2 (returns $3)")))
	}
	return w
}

func flatten(w *want, out *[]string) {
	*out = append(*out, w.lines...)
	for _, k := range w.children {
		flatten(k, out)
	}
}

func (g *g) summary() []string {
	var s []string
	if gen.Chance(g.c.T, "settings", 10) {
		s = append(s, "Settings: work_mem = '64MB'")
	}
	if gen.Chance(g.c.T, "planning", 50) {
		s = append(s, "Planning:", "  Buffers: shared hit=6")
	}
	s = append(s, fmt.Sprintf("Planning Time: 0.%03d ms", g.n("pt", 0, 999)))
	if gen.Chance(g.c.T, "jit", 40) {
		s = append(s, "JIT:", "  Functions: 61", "  Options: Inlining false, Optimization false, Expressions true, Deforming true",
			"  Timing: Generation 3.239 ms, Inlining 0.000 ms, Optimization 4.500 ms, Emission 34.318 ms, Total 42.056 ms")
	}
	return append(s, fmt.Sprintf("Execution Time: %d.%03d ms", g.n("et", 0, 9999), g.n("etd", 0, 999)))
}

func num(n json.Number) string {
	if n == "" {
		return "not printed"
	}
	f, err := strconv.ParseFloat(string(n), 64)
	if err != nil {
		return string(n)
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func compare(c *vt.C, path string, got []*node, want []*want) {
	if len(got) != len(want) {
		c.Fatalf("%s: %d steps shown, the plan has %d there", path, len(got), len(want))
	}
	for i, w := range want {
		n := got[i]
		p := fmt.Sprintf("%s/%d", path, i)
		if n.Text != w.Text {
			c.Fatalf("%s: text shown\n%s\nwant\n%s", p, n.Text, w.Text)
		}
		for _, f := range []struct {
			name string
			g, w json.Number
		}{
			{"estimated initial cost", n.EstimatedInitCost, w.EstimatedInitCost}, {"estimated cost", n.EstimatedCost, w.EstimatedCost},
			{"estimated rows", n.EstimatedReturnedRows, w.EstimatedReturnedRows}, {"estimated width", n.EstimatedWidth, w.EstimatedWidth},
			{"time of first row", n.ActualTimeFirstRow, w.ActualTimeFirstRow}, {"average time", n.ActualTimeAvg, w.ActualTimeAvg},
			{"actual rows", n.ActualReturnedRows, w.ActualReturnedRows}, {"loops", n.ActualLoopCount, w.ActualLoopCount},
		} {
			if num(f.g) != num(f.w) {
				c.Fatalf("%s: %s: shown %s, the step says %s:\n%s", p, f.name, num(f.g), num(f.w), w.Text)
			}
		}
		if n.TableName != w.TableName {
			c.Fatalf("%s: table shown %q, want %q for\n%s", p, n.TableName, w.TableName, w.Text)
		}
		if n.Title != w.Title {
			c.Fatalf("%s: title shown %q, want %q for\n%s", p, n.Title, w.Title, w.Text)
		}
		compare(c, p, n.Children, w.children)
	}
}

func depth(w *want) int {
	d := 0
	for _, k := range w.children {
		d = max(d, depth(k))
	}
	return d + 1
}

func run(c *vt.C, backend string, limit int) {
	g := &g{c: c, max: limit, analyze: backend == "postgres"}
	w := g.node(0, "")
	var lines []string
	flatten(w, &lines)
	nplan := len(lines)
	var sum []string
	if g.analyze {
		sum = g.summary()
		lines = append(lines, sum...)
	}
	c.Input("backend: %s\nEXPLAIN output:\n%s", backend, strings.Join(lines, "\n"))
	cat := &fakedb.Catalog{Tables: []*fakedb.Table{{Schema: tool.Schema(backend), Name: "t", Columns: []fakedb.Column{{Name: "a"}, {Name: "b"}}}}}
	srv := tool.NewServer(backend, cat)
	srv.Explain = lines
	q := "SELECT a FROM t WHERE b = 1"
	if backend == "hasura" {
		srv.SQL = q
		q = "query { t { a } }"
	}
	out := tool.Scratch("c13.html")
	defer os.Remove(out)
	if err := tool.Run(srv, tool.Suggest{Backend: backend, Query: q, Output: out}); err != nil {
		c.Fatalf("no report: %v", err)
	}
	p, err := tool.ReadReport(out)
	if err != nil {
		c.Fatalf("unreadable report: %v", err)
	}
	r, err := p.Decode()
	if err != nil {
		c.Fatalf("unreadable report: %v", err)
	}
	s, err := r.SuggestOf(backend)
	if err != nil {
		c.Fatalf("%v", err)
	}
	var got []*node
	for _, raw := range s.AnalyzeNodes {
		n := &node{}
		if err := json.Unmarshal(raw, n); err != nil {
			c.Fatalf("unreadable plan step: %v", err)
		}
		got = append(got, n)
	}
	compare(c, "plan", got, []*want{w})
	if g.analyze && s.SummaryText != strings.Join(sum, "\n") {
		c.Fatalf("summary shown\n%s\nwant\n%s", s.SummaryText, strings.Join(sum, "\n"))
	}
	c.ClassIf(g.lits > 0, "text values")
	c.ClassIf(g.plans > 0, "CTE, InitPlan or SubPlan")
	c.ClassIf(depth(w) >= 4, "depth 4 or more")
	c.ClassIf(g.count > 20, "more than 20 steps")
	if nplan > 3 && depth(w) > 1 {
		c.NonTrivial(strings.Join(lines, "\n"))
	}
}

func TestPlan(t *testing.T) {
	vt.Check(t, "postgres", 1000, func(c *vt.C) { run(c, "postgres", 14) })
	vt.Check(t, "postgres_large", 100, func(c *vt.C) { run(c, "postgres", 100) })
	vt.Check(t, "hasura", 400, func(c *vt.C) { run(c, "hasura", 14) })
}
