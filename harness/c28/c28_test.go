package c28

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/mrasu/GravityR/cmd/db/dig"
	"verif/harness/fakedb"
	"verif/harness/gen"
	"verif/harness/otelfake"
	"verif/harness/pages"
	"verif/harness/pifake"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// plan draws the server's plan: lines as the server prints them, and the number of steps.
func plan(t *rapid.T, backend string) ([]string, int) {
	var out []string
	n := 0
	var node func(depth int)
	node = func(depth int) {
		n++
		tb := gen.Pick(t, "ptable", "users", "todos", "orders")
		a := float64(rapid.IntRange(0, 900).Draw(t, "first")) / 1000
		b := a + float64(rapid.IntRange(0, 90000).Draw(t, "all"))/1000
		loops := gen.Pick(t, "loops", 1, 1, 2, 40, 2000)
		never := gen.Chance(t, "never", 8)
		if backend == "mysql" {
			op := gen.Pick(t, "op", "Table scan on "+tb, "Filter: ("+tb+".a = 'x < y')", "Nested loop inner join", "Index lookup on "+tb+" using ix (user_id="+tb+".id)", "Sort: "+tb+".b", "Aggregate: count(0)")
			act := fmt.Sprintf("(actual time=%.3f..%.3f rows=%d loops=%d)", a, b, 3, loops)
			if never {
				act = "(never executed)"
			}
			out = append(out, strings.Repeat("    ", depth)+"-> "+op+"  (cost=1.5 rows=10) "+act)
		} else {
			op := gen.Pick(t, "op", "Seq Scan on "+tb, "Nested Loop", "Index Scan using ix on "+tb+" u", "Hash", "Sort", "Aggregate")
			act := fmt.Sprintf("(actual time=%.3f..%.3f rows=%d loops=%d)", a, b, 3, loops)
			if never {
				act = "(never executed)"
			}
			pre := ""
			if depth > 0 {
				pre = strings.Repeat(" ", 6*depth-4) + "->  "
			}
			if backend == "hasura" {
				act = ""
			} else {
				act = " " + act
			}
			out = append(out, pre+op+"  (cost=0.00..25.88 rows=6 width=36)"+act)
			ind := strings.Repeat(" ", 6*depth+2)
			for _, d := range []string{"Filter: (a = '<b>'::text)", "Sort Key: u.id", "Rows Removed by Filter: 5"}[:rapid.IntRange(0, 3).Draw(t, "details")] {
				out = append(out, ind+d)
			}
		}
		if depth < 4 {
			for k := rapid.IntRange(0, 2).Draw(t, "kids"); k > 0 && n < 9; k-- {
				node(depth + 1)
			}
		}
	}
	node(0)
	if backend == "postgres" {
		out = append(out, "Planning Time: 0.1 ms", "Execution Time: 0.2 ms")
	}
	if backend == "mysql" {
		out = append(out, "")
	}
	return out, n
}

func lines(ls []string) []string {
	var out []string
	for _, l := range strings.Split(strings.Join(ls, "\n"), "\n") {
		l = strings.TrimSpace(l)
		l = strings.TrimSpace(strings.TrimPrefix(l, "->"))
		if strings.Trim(l, "-=_ ") != "" { // a rule may separate the summary
			out = append(out, l)
		}
	}
	return out
}

func words(s string) string { return strings.Join(strings.Fields(s), " ") }

func label(target string) string {
	i := strings.Index(target, ":")
	return words("Table=" + target[:i] + " / Column=" + strings.ReplaceAll(target[i+1:], "+", ", "))
}

func isSafe(it string) bool {
	i := strings.Index(it, ":")
	if !gen.IsWord(it[:i]) {
		return false
	}
	for _, c := range strings.Split(it[i+1:], "+") {
		if !gen.IsWord(c) {
			return false
		}
	}
	return true
}

type scenario struct {
	backend string
	cat     *fakedb.Catalog
	sql     string
	run     tool.Suggest
	plan    []string
	steps   int
}

// perform runs the tool and compares what the page of its report shows with what the server and the user know.
func (s *scenario) perform(c *vt.C, br *pages.Browser, r tool.Suggest) (*pages.Suggest, []string) {
	srv := tool.NewServer(s.backend, s.cat.Clone())
	defer srv.Close()
	srv.SQL, srv.Explain = s.sql, s.plan
	err := tool.Run(srv, r)
	if srv.Harness != nil {
		c.Skip(srv.Harness.Error())
	}
	for _, st := range srv.Log {
		if st.Failed {
			c.Fatalf("the server refused %q", st.SQL)
		}
	}
	if err != nil {
		c.Fatalf("the run failed: %v", err)
	}
	pg, err := tool.ReadReport(r.Output)
	if err != nil {
		c.Fatalf("report: %v", err)
	}
	p := &pages.Suggest{}
	if err := br.Open("suggest", pg.Param, p); err != nil {
		c.Fatalf("%v\ndata: %s", err, pg.Param)
	}
	if p.SQL == nil || strings.TrimSpace(*p.SQL) != strings.TrimSpace(s.sql) {
		c.Fatalf("the page shows the SQL %v, the query is %q", str(p.SQL), s.sql)
	}
	if s.backend == "hasura" {
		g := ""
		if p.Gql != nil {
			g = strings.TrimSpace(*p.Gql)
		}
		if !strings.HasPrefix(g, strings.TrimSpace(r.Query)) {
			c.Fatalf("the page shows the GraphQL %q, the query is %q", g, r.Query)
		}
		var got, want interface{}
		rest := g[len(strings.TrimSpace(r.Query)):]
		_ = json.Unmarshal([]byte(r.Vars), &want)
		if i := strings.Index(rest, "{"); i < 0 || json.Unmarshal([]byte(rest[i:]), &got) != nil || !reflect.DeepEqual(got, want) {
			c.Fatalf("the page shows the variables %q, given were %s", rest, r.Vars)
		}
	} else if p.Gql != nil {
		c.Fatalf("a GraphQL query is shown for %s", s.backend)
	}
	if g, w := lines(p.Plan), lines(s.plan); !reflect.DeepEqual(g, w) {
		c.Fatalf("the page shows the plan\n%s\nthe server's is\n%s", strings.Join(g, "\n"), strings.Join(w, "\n"))
	}
	if len(p.Bars) != 1 || p.Bars[0] != s.steps {
		c.Fatalf("the time line has %v bars, the plan %d steps", p.Bars, s.steps)
	}
	rep, err := pg.Decode()
	if err != nil {
		c.Fatalf("report: %v", err)
	}
	sr, err := rep.SuggestOf(s.backend)
	if err != nil {
		c.Fatalf("%v", err)
	}
	var targets []string
	for _, x := range sr.Targets() {
		targets = append(targets, label(x))
	}
	if len(p.Suggest) != len(targets) || len(targets) > 0 && !reflect.DeepEqual(p.Suggest, targets) {
		c.Fatalf("the page suggests %q, the report %q", p.Suggest, targets)
	}
	var created []string
	for _, st := range srv.Log {
		if st.Kind == "create" {
			created = append(created, st.Table+":"+strings.Join(st.Columns, "+"))
		}
	}
	if r.Examine {
		if p.Results == nil {
			c.Fatalf("the page shows no times of the examination")
		}
		want := []string{}
		for _, x := range created {
			want = append(want, label(x))
		}
		got := []string{}
		for i, row := range p.Results {
			if i > 0 && len(row) > 2 {
				got = append(got, row[2])
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if !reflect.DeepEqual(got, want) {
			c.Fatalf("the page shows times of %q, examined were %q", got, want)
		}
	} else {
		if p.Results != nil {
			c.Fatalf("the page shows times of an examination that did not take place")
		}
		if len(created) != 0 {
			c.Fatalf("indexes were created without examination: %v", created)
		}
	}
	return p, created
}

func str(s *string) string {
	if s == nil {
		return "(nothing)"
	}
	return strconv.Quote(*s)
}

func TestSuggest(t *testing.T) {
	br := pages.Start()
	defer br.Close()
	vt.Check(t, "suggest", 500, func(c *vt.C) {
		s := &scenario{backend: gen.Pick(c.T, "backend", tool.Backends...)}
		s.cat = gen.Catalog(c.T, s.backend, gen.CatOpt{MinTables: 1, MaxTables: 3, MaxCols: 5, Unsafe: gen.Chance(c.T, "unsafe", 30), ExtraIndexes: 2})
		s.sql = gen.SimpleQuery(c.T, s.backend, s.cat)
		if gen.Chance(c.T, "nothing to suggest", 12) {
			tb := s.cat.Tables[0]
			s.sql = "SELECT 1 FROM " + gen.Quote(s.backend, tb.Name)
		}
		s.plan, s.steps = plan(c.T, s.backend)
		dir := tool.Scratch("c28")
		if err := os.MkdirAll(dir, 0o755); err != nil {
			pages.Broken(err)
		}
		defer os.RemoveAll(dir)
		out := filepath.Join(dir, gen.Pick(c.T, "output", "r.html", "my report.html", "it's $HOME \"q\".html", "a`b`.html", "-o.html"))
		s.run = tool.Suggest{Backend: s.backend, Query: s.sql, Examine: gen.Chance(c.T, "examine", 40), Output: out}
		if s.backend == "hasura" {
			s.run.Query = gen.Pick(c.T, "gql", "query { x { id } }", "query A($v: Int!, $s: String) {\n  x(where: {a: {_eq: $v}}) { id\tn }\n}")
			s.run.Vars = gen.Pick(c.T, "vars", "{}", `{"v": 1, "s": "it's \"x\" $y `+"`z`"+` \\ "}`, `{"a":{"b":[1,2.5,null,true]}}`)
		}
		for i := rapid.IntRange(0, 4).Draw(c.T, "indexes") - 2; i > 0; i-- {
			it := gen.IndexText(c.T, s.cat)
			if !strings.Contains(it, "no_such_column") {
				s.run.Indexes = append(s.run.Indexes, it)
			}
		}
		c.Input("backend: %s\nschema:\n%squery: %s\nexamine: %v %q\nvariables: %s\noutput: %s\nplan:\n%s", s.backend, s.cat, s.sql, s.run.Examine, s.run.Indexes, s.run.Vars, filepath.Base(out), strings.Join(s.plan, "\n"))
		p, created := s.perform(c, br, s.run)
		c.Class(s.backend)
		if s.run.Examine {
			c.Class("examined")
			c.ClassIf(len(created) == 0, "examined without any index")
			if len(created) > 1 {
				c.NonTrivial(s.sql + fmt.Sprint(created))
			}
			return
		}
		if len(p.Suggest) == 0 {
			c.Class("nothing suggested")
			return
		}
		// the command offered examines what the page suggests
		if len(p.Commands) != 1 || p.Commands[0].Error != "" {
			c.Fatalf("the page does not offer one command: %+v", p.Commands)
		}
		cmd := p.Commands[0]
		if len(cmd.Vars) != 0 || len(cmd.Rest) < 4 || strings.Join(cmd.Rest[:3], " ") != "gr db suggest" {
			c.Fatalf("the command offered is %q", cmd.Words)
		}
		if want := map[string]string{"mysql": "mysql", "postgres": "postgres", "hasura": "hasura postgres"}[s.backend]; strings.Join(cmd.Rest[3:], " ") != want {
			c.Fatalf("the command offered is %q", cmd.Words)
		}
		safe := true
		for _, l := range p.Suggest {
			safe = safe && !strings.ContainsAny(l, "-$ï日")
		}
		known := map[string]bool{"q": true, "o": true, "i": true, "with-examine": true, "json-variables": true}
		for k := range cmd.Opts {
			if !known[k] {
				c.Fatalf("the command offered has the option %s", k)
			}
		}
		one := func(k string) string {
			if len(cmd.Opts[k]) != 1 {
				c.Fatalf("the command offered has %d options %s", len(cmd.Opts[k]), k)
			}
			return cmd.Opts[k][0]
		}
		again := tool.Suggest{Backend: s.backend, Query: one("q"), Output: one("o"), Indexes: cmd.Opts["i"], Examine: one("with-examine") == "true"}
		// an examination writes a report of its own
		if again.Query != s.run.Query || again.Output == out || filepath.Dir(again.Output) != dir || filepath.Ext(again.Output) != filepath.Ext(out) || !again.Examine {
			c.Fatalf("the command offered runs %+v", again)
		}
		first, err := os.ReadFile(out)
		if err != nil {
			c.Fatalf("%v", err)
		}
		if s.backend == "hasura" {
			again.Vars = one("json-variables")
		}
		for _, it := range again.Indexes {
			if !isSafe(it) {
				safe = false
			}
		}
		if !safe {
			c.Class("names the -i option does not take")
			return
		}
		p2, created := s.perform(c, br, again)
		if b, err := os.ReadFile(out); err != nil || string(b) != string(first) {
			c.Fatalf("the command offered changed the first report")
		}
		want := append([]string{}, p.Suggest...)
		got := []string{}
		for _, x := range created {
			got = append(got, label(x))
		}
		if !reflect.DeepEqual(got, want) {
			c.Fatalf("the page suggests %q, the command it offers examined %q", want, got)
		}
		if p2.Suggest != nil && !reflect.DeepEqual(p2.Suggest, p.Suggest) {
			c.Fatalf("the first page suggests %q, the second one %q", p.Suggest, p2.Suggest)
		}
		c.Class("command run")
		if len(got) > 0 {
			c.NonTrivial(s.sql + fmt.Sprint(got))
		}
	})
}

func TestPerformanceInsights(t *testing.T) {
	br := pages.Start()
	defer br.Close()
	vt.Check(t, "performance_insights", 60, func(c *vt.C) {
		at := time.Date(2022, 8, rapid.IntRange(1, 28).Draw(c.T, "day"), rapid.IntRange(0, 23).Draw(c.T, "hour"), gen.Pick(c.T, "min", 0, 0, 5, 30), 0, 0, gen.Pick(c.T, "zone", time.UTC, time.FixedZone("", 9*3600), time.FixedZone("", 5*3600+1800)))
		a := &pifake.Account{Zone: time.UTC, RdsPage: 100}
		type key struct{ tab, db, sql string }
		want := map[key]float64{}
		for i := rapid.IntRange(0, 3).Draw(c.T, "instances"); i > 0; i-- {
			in := &pifake.Instance{Name: fmt.Sprintf("db-%d", i), Resource: fmt.Sprintf("R%d", i), Engine: "mysql"}
			for k := rapid.IntRange(0, 4).Draw(c.T, "series"); k > 0; k-- {
				q := gen.Pick(c.T, "sql", "SELECT * FROM users", "UPDATE a SET b = '</script>'", "SELECT '日本 <b>'", "COMMIT") + fmt.Sprint(" -- ", k)
				s := &pifake.Series{SQL: q, Token: fmt.Sprintf("T%d", k)}
				for n := rapid.IntRange(1, 6).Draw(c.T, "points"); n > 0; n-- {
					v := float64(rapid.IntRange(1, 1000).Draw(c.T, "v")) / 100
					s.Points = append(s.Points, pifake.Point{At: at.UTC().Truncate(5 * time.Minute).Add(time.Duration(rapid.IntRange(1, 2000).Draw(c.T, "slot")) * 5 * time.Minute), Value: &v})
				}
				seen := map[int64]bool{}
				var ps []pifake.Point
				for _, p := range s.Points {
					if !seen[p.At.Unix()] {
						seen[p.At.Unix()] = true
						ps = append(ps, p)
						want[key{"plain", in.Name, words(q)}] += *p.Value * 100
						want[key{"tokenized", in.Name, words(q + " ?")}] += *p.Value * 100
					}
				}
				s.Points = ps
				in.SQL = append(in.SQL, s)
				in.Tokenized = append(in.Tokenized, &pifake.Series{SQL: q + " ?", Token: s.Token, Points: ps})
			}
			a.Instances = append(a.Instances, in)
		}
		c.Input("start-from: %s\nloads (percent): %v", at.Format(time.RFC3339), want)
		out := tool.Scratch("c28.html")
		defer os.Remove(out)
		if err := dig.VerifPiDig(out, at.Format(time.RFC3339), a.Rds(), a.PI()); err != nil {
			c.Fatalf("no report: %v", err)
		}
		pg, err := tool.ReadReport(out)
		if err != nil {
			c.Fatalf("%v", err)
		}
		p := pages.PI{}
		if err := br.Open("pi", pg.Param, &p); err != nil {
			c.Fatalf("%v", err)
		}
		got := map[key]float64{}
		for tab, x := range p {
			if len(x.Charts) != 2 {
				c.Fatalf("%d charts in tab %s", len(x.Charts), tab)
			}
			for _, ch := range x.Charts {
				for _, s := range ch.Series {
					if s.Name == "" || len(s.Data) > 0 && reflect.TypeOf(s.Data[0].X).Kind() == reflect.String {
						for _, b := range s.Data {
							for k := range want {
								if k.tab == tab && words(fmt.Sprint(b.X)) == k.sql && strings.Contains(b.Tip+" ", "Database: "+k.db+" ") {
									got[k] += b.Y
								}
							}
						}
					}
				}
			}
		}
		bad := len(got) != len(want)
		for k, v := range want {
			bad = bad || math.Abs(got[k]-v) > 1e-6
		}
		if bad {
			c.Fatalf("the ranking shows %v, the loads are %v", got, want)
		}
		c.ClassIf(len(want) == 0, "no load at all")
		c.ClassIf(len(a.Instances) > 1, "several databases")
		if len(want) > 2 {
			c.NonTrivial(fmt.Sprint(want))
		}
	})
}

func TestJaeger(t *testing.T) {
	br := pages.Start()
	defer br.Close()
	s := otelfake.Start()
	out := tool.Scratch("c28j.html")
	defer os.Remove(out)
	vt.Check(t, "traces", 250, func(c *vt.C) {
		now := time.Now()
		threshold := rapid.IntRange(0, 4).Draw(c.T, "threshold")
		var traces []*otelfake.Trace
		for i := rapid.IntRange(0, 5).Draw(c.T, "traces"); i > 0; i-- {
			traces = append(traces, otelfake.Gen(c.T, i, time.Unix(1700000000, 0), otelfake.Opt{MaxSpans: 14}))
		}
		all, many := map[string]int{}, map[string]int{}
		for _, tr := range traces {
			for _, w := range tr.Trees() {
				row := fmt.Sprintf("%x %d", tr.ID, w.Count())
				all[row]++
				if w.Count() > threshold {
					many[row]++
				}
			}
		}
		c.Input("threshold %d, traces:\n%v", threshold, traces)
		s.Reset(traces...)
		s.All = true
		if _, err, bad := s.Dig(out, "-s", "front", "-d", "1", "-t", strconv.Itoa(threshold), "--start-from", now.Add(-10*time.Minute).Format(time.RFC3339)); err != nil || bad != nil {
			c.Fatalf("the run failed: %v %v", err, bad)
		}
		pg, err := tool.ReadReport(out)
		if err != nil {
			c.Fatalf("%v", err)
		}
		p := pages.Jaeger{}
		if err := br.Open("jaeger", pg.Param, &p); err != nil {
			c.Fatalf("%v", err)
		}
		for id, want := range map[string]map[string]int{"slowTraces": all, "sameServiceTraces": many} {
			got := map[string]int{}
			for _, r := range p[id] {
				if len(r.Cells) < 4 || len(r.Links) != 1 || len(r.Diagrams) != 1 {
					c.Fatalf("%s: a row is %+v", id, r)
				}
				if r.Links[0] != otelfake.UI+"/trace/"+r.Cells[0] {
					c.Fatalf("%s: the link of trace %s is %s", id, r.Cells[0], r.Links[0])
				}
				got[r.Cells[0]+" "+strings.Map(func(x rune) rune {
					if x >= '0' && x <= '9' {
						return x
					}
					return -1
				}, r.Cells[2])]++
			}
			if !reflect.DeepEqual(got, want) {
				c.Fatalf("%s: the page lists %v, recorded were %v (threshold %d)", id, got, want, threshold)
			}
		}
		c.ClassIf(len(many) > 0 && len(many) < len(all), "threshold divides the traces")
		if len(all) > 1 {
			c.NonTrivial(fmt.Sprint(traces))
		}
	})
}
