package c02

import (
	"errors"
	"fmt"
	"os"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/database/dservice"
	"pgregory.net/rapid"

	"verif/harness/fakedb"
	"verif/harness/gen"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// fakeExaminer is the database seen by the examiner: it knows which indexes exist and answers with chosen durations.
type fakeExaminer struct {
	times  []int64
	n      int
	live   map[string]string
	trace  []string
	failAt map[string]int
	count  map[string]int
	names  map[string]bool
}

func text(it *dmodel.IndexTarget) string {
	var c []string
	for _, x := range it.Columns {
		c = append(c, x.Name)
	}
	return it.TableName + ":" + strings.Join(c, "+")
}

func (f *fakeExaminer) step(kind string) error {
	f.count[kind]++
	if f.failAt[kind] == f.count[kind] {
		return fmt.Errorf("%s failed", kind)
	}
	return nil
}

func (f *fakeExaminer) Execute() (int64, error) {
	var live []string
	for _, v := range f.live {
		live = append(live, v)
	}
	f.trace = append(f.trace, "run with "+strings.Join(live, ","))
	if err := f.step("run"); err != nil {
		return 0, err
	}
	d := f.times[f.n%len(f.times)]
	f.n++
	return d, nil
}

func (f *fakeExaminer) CreateIndex(name string, it *dmodel.IndexTarget) error {
	if err := f.step("create"); err != nil {
		return err
	}
	if _, ok := f.live[it.TableName+"/"+name]; ok {
		return errors.New("duplicate index name")
	}
	f.live[it.TableName+"/"+name] = text(it)
	return nil
}

func (f *fakeExaminer) DropIndex(name string, it *dmodel.IndexTarget) error {
	if err := f.step("drop"); err != nil {
		return err
	}
	if _, ok := f.live[it.TableName+"/"+name]; !ok {
		return errors.New("no such index")
	}
	delete(f.live, it.TableName+"/"+name)
	return nil
}

func TestExaminer(t *testing.T) {
	vt.Check(t, "examiner", 4000, func(c *vt.C) {
		n := rapid.IntRange(0, 8).Draw(c.T, "n")
		var its []*dmodel.IndexTarget
		var want []string
		for i := 0; i < n; i++ {
			tb := gen.Pick(c.T, "table", "users", "todos", "T")
			var cols []string
			for j := rapid.IntRange(1, 4).Draw(c.T, "cols"); j > 0; j-- {
				cols = append(cols, gen.Pick(c.T, "col", "a", "b", "name", "a_very_long_column_name_indeed_yes"))
			}
			it := dmodel.NewIndexTarget(tb, cols)
			its = append(its, it)
			want = append(want, text(it))
		}
		f := &fakeExaminer{live: map[string]string{}, count: map[string]int{}, failAt: map[string]int{}}
		for i := 0; i <= n; i++ {
			f.times = append(f.times, gen.Pick(c.T, "ms", int64(0), 1, 5, 5, 17, 999, 1<<40))
		}
		if gen.Chance(c.T, "fail", 40) {
			f.failAt[gen.Pick(c.T, "failkind", "run", "create", "drop")] = rapid.IntRange(1, n+1).Draw(c.T, "failn")
		}
		c.Input("targets: %v\ntimes: %v\nfailing: %v", want, f.times, f.failAt)
		res, err := dservice.NewIndexEfficiencyExaminer(f).Run(its)
		failed := false
		for k, v := range f.failAt {
			failed = failed || f.count[k] >= v
		}
		if failed {
			if err == nil {
				c.Fatalf("a step failed and the examination reported success: %v", f.trace)
			}
			c.Class("failure reported")
			c.NonTrivial(fmt.Sprint(want, f.failAt))
			return
		}
		if err != nil {
			c.Fatalf("nothing failed and the examination returned %v", err)
		}
		exp := []string{"run with "}
		for _, w := range want {
			exp = append(exp, "run with "+w)
		}
		if !reflect.DeepEqual(f.trace, exp) {
			c.Fatalf("executions were %q, want %q", f.trace, exp)
		}
		vm := res.ToViewModel()
		if vm.OriginalTimeMillis != f.times[0] {
			c.Fatalf("original time %d, want %d", vm.OriginalTimeMillis, f.times[0])
		}
		if len(vm.IndexResults) != n {
			c.Fatalf("%d results for %d indexes", len(vm.IndexResults), n)
		}
		for i, r := range vm.IndexResults {
			var cs []string
			for _, x := range r.IndexTarget.Columns {
				cs = append(cs, x.Name)
			}
			got := r.IndexTarget.TableName + ":" + strings.Join(cs, "+")
			if got != want[i] || r.ExecutionTimeMillis != f.times[i+1] {
				c.Fatalf("result %d is %s in %d ms, want %s in %d ms", i, got, r.ExecutionTimeMillis, want[i], f.times[i+1])
			}
		}
		if n > 1 {
			c.NonTrivial(fmt.Sprint(want, f.times))
		}
	})
}

type scenario struct {
	backend string
	cat     *fakedb.Catalog
	sql     string
	run     tool.Suggest
	delays  map[string][]int
}

func draw(c *vt.C) *scenario {
	s := &scenario{backend: gen.Pick(c.T, "backend", tool.Backends...)}
	s.cat = gen.Catalog(c.T, s.backend, gen.CatOpt{MinTables: 1, MaxTables: 3, MaxCols: 5, Unsafe: true, ExtraIndexes: 2})
	s.sql = gen.SimpleQuery(c.T, s.backend, s.cat)
	s.run = tool.Suggest{Backend: s.backend, Query: s.sql, Examine: true}
	if s.backend == "hasura" {
		s.run.Query = gen.Pick(c.T, "gql", "query { x { id } }", "query A($v: Int!, $s: String) {\n  x(where: {a: {_eq: $v}}) { id\tn }\n}")
		s.run.Vars = gen.Pick(c.T, "vars", "{}", `{"v": 1, "s": "it's \"x\""}`, `{"a":{"b":[1,2.5,null,true]}}`)
	}
	for i := gen.Pick(c.T, "indexes", 0, 0, 1, 1, 2, 2, 3, 12); i > 0; i-- {
		s.run.Indexes = append(s.run.Indexes, gen.IndexText(c.T, s.cat))
	}
	return s
}

func (s *scenario) String() string {
	return fmt.Sprintf("backend: %s\nschema:\n%squery: %s\n-i: %q\nvariables: %s", s.backend, s.cat, s.sql, s.run.Indexes, s.run.Vars)
}

func isSafe(it string) bool {
	i := strings.Index(it, ":")
	if !gen.IsWord(it[:i]) {
		return false
	}
	for _, c := range strings.Split(it[i+1:], "+") {
		if !gen.IsWord(c) {
			return false
		}
	}
	return true
}

func (s *scenario) check(c *vt.C, delay func(i int, st *fakedb.Stmt) time.Duration, failRun int) {
	srv := tool.NewServer(s.backend, s.cat.Clone())
	defer srv.Close()
	srv.SQL = s.sql
	n := 0
	if delay != nil {
		srv.Delay = func(st *fakedb.Stmt) time.Duration { n++; return delay(n, st) }
	}
	runs, failed := 0, false
	srv.Fault = func(st *fakedb.Stmt) error {
		if st.Kind == "run" {
			runs++
			if runs == failRun {
				failed = true
				return errors.New("query failed")
			}
		}
		return nil
	}
	out := tool.Scratch("r.html")
	defer os.Remove(out)
	r := s.run
	r.Output = out
	err := tool.Run(srv, r)
	if srv.Harness != nil {
		c.Skip(srv.Harness.Error())
	}
	serverFailed := false
	for _, st := range srv.Log {
		serverFailed = serverFailed || st.Failed
	}
	if serverFailed {
		if err == nil {
			c.Fatalf("a statement of the examination failed on the server and the run reported success (a failed execution is no measurement)")
		}
		c.Class("failure reported")
		if failed {
			c.NonTrivial(s.String() + fmt.Sprint("fail", failRun))
		}
		return
	}
	if err != nil {
		c.Fatalf("every statement succeeded and the run returned %v", err)
	}
	page, err := tool.ReadReport(out)
	if err != nil {
		c.Fatalf("report: %v", err)
	}
	rep, err := page.Decode()
	if err != nil {
		c.Fatalf("report: %v", err)
	}
	sr, err := rep.SuggestOf(s.backend)
	if err != nil {
		c.Fatalf("%v", err)
	}
	want := append([]string(nil), s.run.Indexes...)
	if len(want) == 0 {
		for _, t := range sr.Targets() {
			if isSafe(t) {
				want = append(want, t)
			}
		}
		c.Class("own suggestions examined")
	}
	// what the server saw, after the reading part
	var ex []*fakedb.Stmt
	var prev *fakedb.Stmt
	for i, st := range srv.Log {
		if st.Kind == "explain" || st.Kind == "catalog" {
			if len(ex) > 0 {
				c.Fatalf("reading resumed in the middle of the examination: %s", st.SQL)
			}
			prev = srv.Log[i]
			continue
		}
		ex = append(ex, st)
	}
	if len(ex) != 1+3*len(want) {
		var ks []string
		for _, st := range ex {
			ks = append(ks, st.Kind+" "+st.Table+fmt.Sprint(st.Columns))
		}
		c.Fatalf("examining %v took the statements %v", want, ks)
	}
	qtext := r.Query
	checkRun := func(i int, extra string, ms int64, p *fakedb.Stmt, what string) {
		st := ex[i]
		if st.Kind != "run" || st.SQL != qtext {
			c.Fatalf("statement %d of the examination is [%s] %q, want the query itself", i, st.Kind, st.SQL)
		}
		var got []string
		for _, e := range st.Extra {
			got = append(got, e[strings.Index(e, ".")+1:])
		}
		if extra == "" && len(got) != 0 || extra != "" && (len(got) != 1 || !strings.HasPrefix(got[0], extra[:strings.Index(extra, ":")+1]) ||
			!strings.Contains(got[0], "("+strings.ReplaceAll(extra[strings.Index(extra, ":")+1:], "+", ",")+") primary=false unique=false")) {
			c.Fatalf("the measurement %s ran with the extra indexes %v", what, got)
		}
		lo := int64(0)
		if delay != nil {
			lo = st.End.Sub(st.Begin).Milliseconds()
		}
		if ms < lo {
			c.Fatalf("measurement %s: %d ms reported, the server alone took %d ms", what, ms, lo)
		}
		if i+1 < len(ex) {
			if hi := ex[i+1].Begin.Sub(p.End).Milliseconds(); ms > hi {
				c.Fatalf("measurement %s: %d ms reported, only %d ms passed between the statements before and after it", what, ms, hi)
			}
		}
	}
	if sr.Examination == nil {
		c.Fatalf("the report holds no examination result")
	}
	checkRun(0, "", sr.Examination.OriginalTimeMillis, prev, "without new index")
	if len(sr.Examination.IndexResults) != len(want) {
		c.Fatalf("%d results reported for %v", len(sr.Examination.IndexResults), want)
	}
	for i, w := range want {
		res := sr.Examination.IndexResults[i]
		if res.IndexTarget.String() != w {
			c.Fatalf("result %d is for %s, want %s", i, res.IndexTarget, w)
		}
		cr, dr := ex[1+3*i], ex[3+3*i]
		if cr.Kind != "create" || cr.Table+":"+strings.Join(cr.Columns, "+") != w {
			c.Fatalf("result %d is for %s, the index created was %s %s%v", i, w, cr.Kind, cr.Table, cr.Columns)
		}
		if dr.Kind != "drop" || dr.Index != cr.Index {
			c.Fatalf("after the measurement of %s came %s %s, not the removal of %s", w, dr.Kind, dr.Index, cr.Index)
		}
		checkRun(2+3*i, w, res.ExecutionTimeMillis, cr, "of "+w)
	}
	if len(want) > 0 {
		c.NonTrivial(s.String())
	}
	c.Class(s.backend)
	c.ClassIf(len(want) > 1, "several indexes")
}

func TestEndToEnd(t *testing.T) {
	vt.Check(t, "end_to_end", 700, func(c *vt.C) {
		s := draw(c)
		c.Input("%s", s)
		s.check(c, nil, 0)
	})
	vt.Check(t, "failing_execution", 350, func(c *vt.C) {
		s := draw(c)
		k := rapid.IntRange(1, 4).Draw(c.T, "failrun")
		c.Input("%s\nexecution %d fails", s, k)
		s.check(c, nil, k)
	})
	vt.Check(t, "timing", 30, func(c *vt.C) {
		s := draw(c)
		if len(s.run.Indexes) == 0 {
			s.run.Indexes = []string{gen.IndexText(c.T, s.cat)}
		}
		s.run.Indexes = s.run.Indexes[:1+len(s.run.Indexes)/3]
		d := rapid.SliceOfN(rapid.IntRange(0, 45), 4, 4).Draw(c.T, "delays")
		c.Input("%s\ndelays: %v", s, d)
		s.check(c, func(i int, st *fakedb.Stmt) time.Duration { return time.Duration(d[i%4]) * time.Millisecond }, 0)
	})
}
