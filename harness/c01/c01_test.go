package c01

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/fakedb"
	"verif/harness/gen"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

type scenario struct {
	backend string
	cat     *fakedb.Catalog
	sql     string
	run     tool.Suggest
}

func draw(c *vt.C) *scenario {
	s := &scenario{backend: gen.Pick(c.T, "backend", tool.Backends...)}
	s.cat = gen.Catalog(c.T, s.backend, gen.CatOpt{MinTables: 1, MaxTables: 3, MaxCols: 5, Unsafe: true, ExtraIndexes: 2})
	s.sql = gen.SimpleQuery(c.T, s.backend, s.cat)
	s.run = tool.Suggest{Backend: s.backend, Query: s.sql, Examine: true}
	if s.backend == "hasura" {
		s.run.Query = "query { x { id } }"
	}
	for i := gen.Pick(c.T, "indexes", 0, 1, 2, 3, 4, 12); i > 0; i-- {
		s.run.Indexes = append(s.run.Indexes, gen.IndexText(c.T, s.cat))
	}
	return s
}

func (s *scenario) String() string {
	return fmt.Sprintf("backend: %s\nschema:\n%squery: %s\n-i: %q\nwith-examine: %v", s.backend, s.cat, s.sql, s.run.Indexes, s.run.Examine)
}

func (s *scenario) exec(c *vt.C, fault func(i int, st *fakedb.Stmt) error) (*fakedb.Server, error) {
	srv := tool.NewServer(s.backend, s.cat.Clone())
	defer srv.Close()
	srv.SQL = s.sql
	n := -1
	srv.Fault = func(st *fakedb.Stmt) error {
		n++
		if fault == nil {
			return nil
		}
		return fault(n, st)
	}
	r := s.run
	if s.run.Output != "" {
		r.Output = tool.Scratch("c01.html")
		defer os.Remove(r.Output)
	}
	err := tool.Run(srv, r)
	if srv.Harness != nil {
		c.Skip(srv.Harness.Error())
	}
	return srv, err
}

func logText(srv *fakedb.Server) string {
	var sb strings.Builder
	for i, st := range srv.Log {
		f := ""
		if st.Failed {
			f = "  -> FAILED"
		}
		sql := strings.Join(strings.Fields(st.SQL), " ")
		if len(sql) > 120 {
			sql = sql[:120] + "..."
		}
		fmt.Fprintf(&sb, "  %d [%s] %s%s\n", i, st.Kind, sql, f)
	}
	return sb.String()
}

// judge is the oracle over one history of statements.
func judge(srv *fakedb.Server, runErr error) error {
	now := map[string]bool{}
	for _, i := range srv.Cat.IndexSnapshot() {
		now[i] = true
	}
	init := map[string]bool{}
	for _, i := range srv.Initial {
		init[i] = true
		if !now[i] {
			return fmt.Errorf("index %s existed before the run and is gone", i)
		}
	}
	created := map[string]bool{}
	dropFailed := map[string]bool{}
	anyDropFailed := false
	for _, st := range srv.Log {
		switch st.Kind {
		case "create":
			if !st.Failed {
				created[st.Index] = true
			}
		case "drop":
			if !created[st.Index] {
				return fmt.Errorf("a DROP was sent for %q, which this run did not create", st.Index)
			}
			if st.Failed {
				dropFailed[st.Index] = true
				anyDropFailed = true
			}
		case "other":
			return fmt.Errorf("a statement other than reading, CREATE INDEX and DROP INDEX was sent: %s", st.SQL)
		}
	}
	for i := range now {
		if init[i] {
			continue
		}
		name := i[strings.Index(i, ":")+1 : strings.LastIndex(i, "(")]
		if !dropFailed[name] {
			return fmt.Errorf("index %s is left behind although the server refused no DROP for it (run returned: %v)", i, runErr)
		}
		if runErr == nil {
			return fmt.Errorf("index %s is left behind because its DROP failed, and the run reported success", i)
		}
	}
	if anyDropFailed && runErr == nil {
		return errors.New("a DROP INDEX failed and the run reported success")
	}
	return nil
}

func faultFor(backend string, kind string, k int) error {
	if backend != "hasura" {
		return fmt.Errorf("injected failure %d", k)
	}
	switch k % 4 {
	case 0:
		return &fakedb.HTTPFault{Status: 400, Body: `{"error":"query execution failed","path":"$.args"}`}
	case 1:
		return &fakedb.HTTPFault{Status: 500, Body: "oops"}
	case 2:
		return &fakedb.HTTPFault{Drop: true}
	}
	if kind == "run" {
		return &fakedb.HTTPFault{Status: 200, Body: `{"errors":[{"message":"database query error"}]}`}
	}
	return &fakedb.HTTPFault{Status: 503, Body: ""}
}

// Every single failure point of a run is enumerated, then some sets of failure points.
func TestNoIndexLeftBehind(t *testing.T) {
	vt.Check(t, "every_single_fault", 220, func(c *vt.C) {
		s := draw(c)
		mode := rapid.IntRange(0, 3).Draw(c.T, "faultmode")
		s.run.Output = gen.Pick(c.T, "out", "", "x")
		c.Input("%s", s)
		srv, err := s.exec(c, nil)
		if e := judge(srv, err); e != nil {
			c.Fatalf("no failure injected: %v\n%s", e, logText(srv))
		}
		n := len(srv.Log)
		creates := 0
		for _, st := range srv.Log {
			if st.Kind == "create" && !st.Failed {
				creates++
			}
		}
		c.Class(s.backend)
		c.ClassIf(creates > 0, "index created")
		c.ClassIf(creates > 1, "several indexes created")
		if creates > 0 {
			c.NonTrivial(s.String())
		}
		for k := 0; k < n && k < 40; k++ {
			srv, err := s.exec(c, func(i int, st *fakedb.Stmt) error {
				if i == k {
					return faultFor(s.backend, st.Kind, mode)
				}
				return nil
			})
			if e := judge(srv, err); e != nil {
				c.Fatalf("statement %d made to fail: %v\n%s", k, e, logText(srv))
			}
			if len(srv.Log) > k && srv.Log[k].Failed {
				c.Class("fault at " + srv.Log[k].Kind)
			}
		}
	})
	vt.Check(t, "fault_sets", 600, func(c *vt.C) {
		s := draw(c)
		mode := rapid.IntRange(0, 3).Draw(c.T, "faultmode")
		plan := map[string]int{}
		for _, k := range []string{"create", "drop", "run"} {
			plan[k] = rapid.IntRange(-1, 5).Draw(c.T, k) // fail the k-th one and all later ones of that kind
		}
		c.Input("%s\nfail from the n-th on: %v", s, plan)
		seen := map[string]int{}
		srv, err := s.exec(c, func(i int, st *fakedb.Stmt) error {
			k, ok := plan[st.Kind]
			if !ok {
				return nil
			}
			seen[st.Kind]++
			if k >= 0 && seen[st.Kind] > k {
				return faultFor(s.backend, st.Kind, mode)
			}
			return nil
		})
		if e := judge(srv, err); e != nil {
			c.Fatalf("%v\n%s", e, logText(srv))
		}
		failed := ""
		created := false
		for _, st := range srv.Log {
			if st.Failed {
				failed += st.Kind + " "
			}
			created = created || st.Kind == "create" && !st.Failed
		}
		c.ClassIf(strings.Contains(failed, "drop"), "drop failed")
		c.ClassIf(strings.Contains(failed, "run") && strings.Contains(failed, "drop"), "query and drop failed")
		if failed != "" && created {
			c.NonTrivial(s.String() + fmt.Sprint(plan))
		}
	})
}

// Without --with-examine the run only reads.
func TestReadOnlyWithoutExamination(t *testing.T) {
	vt.Check(t, "no_examination", 400, func(c *vt.C) {
		s := draw(c)
		s.run.Examine = false
		c.Input("%s", s)
		srv, err := s.exec(c, nil)
		for _, st := range srv.Log {
			if st.Kind != "explain" && st.Kind != "catalog" {
				c.Fatalf("examination was not asked for, and this was sent: [%s] %s", st.Kind, st.SQL)
			}
		}
		if e := judge(srv, err); e != nil {
			c.Fatalf("%v\n%s", e, logText(srv))
		}
		if err == nil {
			c.NonTrivial(s.String())
		}
	})
}
