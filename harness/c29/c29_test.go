package c29

import (
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	_ "github.com/mrasu/GravityR/cmd"
	"github.com/mrasu/GravityR/cmd/db/suggest"
	"github.com/mrasu/GravityR/cmd/flag"
	"github.com/mrasu/GravityR/cmd/util"
	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/database/dservice"
	"github.com/mrasu/GravityR/lib"
	"github.com/spf13/cobra"
	"pgregory.net/rapid"

	"verif/harness/fakedb"
	"verif/harness/gen"
	"verif/harness/netfake"
	"verif/harness/otelfake"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) {
	for _, e := range os.Environ() {
		if k := strings.SplitN(e, "=", 2)[0]; strings.HasPrefix(k, "PG") || strings.HasPrefix(k, "DB_") {
			os.Unsetenv(k)
		}
	}
	http.DefaultTransport = lib.NewHttpTransport()
	vt.Main(m)
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")
var head = regexp.MustCompile(`^\S+ (TRC|DBG|INF|WRN|ERR|\?\?\?) ?`)

// console runs f with the program's own log set-up and returns what it wrote on standard error, message by message.
// The error f ends with is reported the way the program reports it.
func console(verbose bool, f func() error) (levels, msgs []string, err error) {
	path := tool.Scratch("stderr")
	file, e := os.Create(path)
	if e != nil {
		panic(e)
	}
	defer os.Remove(path)
	old := os.Stderr
	os.Stderr = file
	flag.GlobalFlag.Verbose = verbose
	root := suggest.MySqlCmd.Root()
	switch {
	case root.PersistentPreRunE != nil:
		_ = root.PersistentPreRunE(suggest.MySqlCmd, nil)
	case root.PersistentPreRun != nil:
		root.PersistentPreRun(suggest.MySqlCmd, nil)
	}
	func() {
		defer func() { os.Stderr = old; file.Close() }()
		err = f()
		if err != nil {
			util.LogError(err)
		}
	}()
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(strings.TrimSuffix(ansi.ReplaceAllString(string(b), ""), "\n"), "\n") {
		if h := head.FindString(l); h != "" {
			levels = append(levels, strings.Fields(h)[1])
			msgs = append(msgs, l[len(h):])
		} else if len(msgs) > 0 {
			msgs[len(msgs)-1] += "\n" + l
		} else if l != "" {
			levels, msgs = append(levels, ""), append(msgs, l)
		}
	}
	return
}

var target = regexp.MustCompile(`^\s*\d+\.\s*table: (.*), columns: \[(.*)\]\)?$`)
var timeLine = regexp.MustCompile(`^Time: (-?\d+)ms \((\S+)% reduced\), Columns\((.*)\)$`)
var origLine = regexp.MustCompile(`^Original Time: (-?\d+)ms$`)
var indexLine = regexp.MustCompile(`^(Creating|Dropping) index\((.*)\)\.\.\.$`)

// results reads the examination part of a verbose console.
func results(msgs []string) (orig []string, byTable map[string][][3]string, order string) {
	byTable = map[string][][3]string{}
	tb := ""
	for _, m := range msgs {
		if o := origLine.FindStringSubmatch(m); o != nil {
			orig = append(orig, o[1])
		} else if strings.HasPrefix(m, "==Table: ") {
			tb = m[len("==Table: "):]
			if _, ok := byTable[tb]; ok {
				order = "table " + tb + " comes twice"
			}
			byTable[tb] = [][3]string{}
		} else if x := timeLine.FindStringSubmatch(m); x != nil {
			byTable[tb] = append(byTable[tb], [3]string{x[1], x[2], x[3]})
		}
	}
	return
}

type measured struct {
	table, cols string
	millis      int64
}

func reduced(orig, t int64) string {
	switch {
	case orig == t:
		return "0.0"
	case orig == 0:
		return "-Inf"
	}
	return fmt.Sprintf("%.1f", (1-float64(t)/float64(orig))*100)
}

func judgeResults(msgs []string, orig int64, ms []measured) string {
	o, by, bad := results(msgs)
	if bad != "" {
		return bad
	}
	if !reflect.DeepEqual(o, []string{strconv.FormatInt(orig, 10)}) {
		return fmt.Sprintf("the original time on the console is %v, measured was %d", o, orig)
	}
	want := map[string]map[[3]string]int{}
	n := 0
	for _, m := range ms {
		if want[m.table] == nil {
			want[m.table] = map[[3]string]int{}
		}
		want[m.table][[3]string{strconv.FormatInt(m.millis, 10), reduced(orig, m.millis), m.cols}]++
		n++
	}
	got := map[string]map[[3]string]int{}
	for tb, ls := range by {
		got[tb] = map[[3]string]int{}
		last := int64(-1 << 62)
		for _, l := range ls {
			if l[1] == "-0.0" {
				l[1] = "0.0"
			}
			got[tb][l]++
			t, _ := strconv.ParseInt(l[0], 10, 64)
			if t < last {
				return fmt.Sprintf("table %s: %d ms is listed after %d ms", tb, t, last)
			}
			last = t
		}
	}
	for tb, w := range want {
		for l, k := range w {
			if l[1] == "-0.0" {
				delete(w, l)
				l[1] = "0.0"
				w[l] += k
			}
		}
		_ = tb
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("the console gives (time, reduction, columns) %v, measured was %v", got, want)
	}
	return ""
}

// --- the examiner alone, with chosen times ---

type examiner struct {
	times []int64
	n     int
}

func (f *examiner) Execute() (int64, error) {
	f.n++
	return f.times[(f.n-1)%len(f.times)], nil
}
func (f *examiner) CreateIndex(string, *dmodel.IndexTarget) error { return nil }
func (f *examiner) DropIndex(string, *dmodel.IndexTarget) error   { return nil }

func TestExaminer(t *testing.T) {
	vt.Check(t, "times", 3000, func(c *vt.C) {
		f := &examiner{}
		for i := rapid.IntRange(1, 8).Draw(c.T, "n"); i > 0; i-- {
			f.times = append(f.times, gen.Pick(c.T, "time", rapid.Int64Range(0, 3).Draw(c.T, "tiny"), rapid.Int64Range(0, 2000).Draw(c.T, "t"), rapid.Int64Range(0, 1<<40).Draw(c.T, "huge")))
		}
		var its []*dmodel.IndexTarget
		var ms []measured
		for i := 1; i < len(f.times); i++ {
			cols := gen.Subset(c.T, "col", []string{"a", "b", "c_d", "e1"}, rapid.IntRange(1, 3).Draw(c.T, "k"))
			tb := gen.Pick(c.T, "table", "users", "todos", "orders")
			its = append(its, dmodel.NewIndexTarget(tb, cols))
			ms = append(ms, measured{tb, strings.Join(cols, ","), f.times[i]})
		}
		c.Input("original %d ms, then %v", f.times[0], ms)
		_, msgs, err := console(true, func() error {
			_, err := dservice.NewIndexEfficiencyExaminer(f).Run(its)
			return err
		})
		if err != nil {
			c.Fatalf("%v", err)
		}
		if d := judgeResults(msgs, f.times[0], ms); d != "" {
			c.Fatalf("%s\n%s", d, strings.Join(msgs, "\n"))
		}
		if len(ms) > 1 {
			c.NonTrivial(fmt.Sprint(f.times, ms))
		}
	})
}

// --- whole runs ---

func secret(c *vt.C) string {
	return "Zq7" + rapid.StringMatching(`[A-Za-z0-9!#$%&'*+.^_|~@:/?=-]{6,14}`).Draw(c.T, "secret") + "9wX"
}

func TestSuggest(t *testing.T) {
	vt.Check(t, "suggest", 1800, func(c *vt.C) {
		b := gen.Pick(c.T, "backend", tool.Backends...)
		cat := gen.Catalog(c.T, b, gen.CatOpt{MinTables: 1, MaxTables: 3, MaxCols: 4, Unsafe: true, ExtraIndexes: 2})
		sql := gen.SimpleQuery(c.T, b, cat)
		r := tool.Suggest{Backend: b, Query: sql, Examine: gen.Chance(c.T, "examine", 50), Secret: secret(c)}
		if b == "hasura" {
			r.Query = "query { x { id } }"
		}
		if r.Examine && gen.Chance(c.T, "given", 60) {
			for i := rapid.IntRange(1, 3).Draw(c.T, "indexes"); i > 0; i-- {
				r.Indexes = append(r.Indexes, gen.IndexText(c.T, cat))
			}
		}
		out := ""
		if !gen.Chance(c.T, "no output", 12) {
			out = tool.Scratch("c29.html")
			defer os.Remove(out)
			r.Output = out
			if gen.Chance(c.T, "relative", 40) {
				wd, _ := os.Getwd()
				if rel, err := filepath.Rel(wd, out); err == nil {
					r.Output = rel
				}
			}
		}
		verbose := !gen.Chance(c.T, "quiet", 25)
		failAt := rapid.IntRange(0, 25).Draw(c.T, "fail at")
		ds := rapid.SliceOfN(rapid.IntRange(0, 6), 1, 5).Draw(c.T, "delays")
		c.Input("backend: %s\nschema:\n%squery: %s\nrun: %+v\nverbose: %v\nfail at statement: %d\ndelays (ms): %v", b, cat, sql, r, verbose, failAt, ds)
		srv := tool.NewServer(b, cat.Clone())
		defer srv.Close()
		srv.SQL = sql
		n, runs := 0, 0
		srv.Fault = func(st *fakedb.Stmt) error {
			n++
			if n-1 == failAt {
				if b == "hasura" && failAt%2 == 0 {
					return &fakedb.HTTPFault{Drop: true}
				}
				return fmt.Errorf("injected failure")
			}
			return nil
		}
		srv.Delay = func(st *fakedb.Stmt) time.Duration {
			if st.Kind != "run" {
				return 0
			}
			runs++
			return time.Duration(ds[runs%len(ds)]) * time.Millisecond
		}
		levels, msgs, err := console(verbose, func() error { return tool.Run(srv, r) })
		if srv.Harness != nil {
			c.Skip(srv.Harness.Error())
		}
		all := strings.Join(msgs, "\n")
		if strings.Contains(all, r.Secret) {
			c.Fatalf("the admin secret %q is on the console:\n%s", r.Secret, all)
		}
		// names of indexes, in the order of the statements
		var names, sent []string
		at := 0
		for _, m := range msgs {
			if x := indexLine.FindStringSubmatch(m); x != nil {
				names = append(names, x[1]+" "+x[2])
			}
			if strings.HasPrefix(m, "Result html is at: ") {
				at++
				if out == "" || m != "Result html is at: "+out {
					c.Fatalf("the report is said to be at %q, it was to be written to %q", m, out)
				}
			}
		}
		for _, st := range srv.Log {
			switch st.Kind {
			case "create":
				sent = append(sent, "Creating "+st.Index)
			case "drop":
				sent = append(sent, "Dropping "+st.Index)
			}
		}
		if !reflect.DeepEqual(names, sent) {
			c.Fatalf("indexes named on the console: %v\nsent to the server: %v", names, sent)
		}
		_, serr := os.Stat(out)
		if wrote := out != "" && serr == nil; wrote != (at == 1) || at > 1 {
			c.Fatalf("the console names a report %d times; a report was written: %v", at, wrote)
		}
		for _, l := range levels {
			if !verbose && (l == "DBG" || l == "TRC") {
				c.Fatalf("details are printed without --verbose:\n%s", all)
			}
		}
		if err != nil || out == "" {
			c.ClassIf(err != nil, "the run failed")
			if len(sent) > 0 {
				c.NonTrivial(fmt.Sprint(cat, sql, r, failAt))
			}
			return
		}
		raw, _ := os.ReadFile(out)
		if strings.Contains(string(raw), r.Secret) {
			c.Fatalf("the admin secret %q is in the report", r.Secret)
		}
		page, e := tool.ParseHTML(raw)
		if e != nil {
			c.Fatalf("%v", e)
		}
		rep, e := page.Decode()
		if e != nil {
			c.Fatalf("%v", e)
		}
		sr, e := rep.SuggestOf(b)
		if e != nil {
			c.Fatalf("%v", e)
		}
		if !verbose {
			c.Class("not verbose")
			return
		}
		var listed []string
		none := false
		for _, m := range msgs {
			if x := target.FindStringSubmatch(m); x != nil {
				listed = append(listed, x[1]+":"+strings.ReplaceAll(x[2], ", ", "+"))
			}
			none = none || strings.HasPrefix(m, "No possibly efficient index found")
		}
		if !reflect.DeepEqual(listed, sr.Targets()) {
			c.Fatalf("the console lists %v, the report %v", listed, sr.Targets())
		}
		if none != (len(listed) == 0) {
			c.Fatalf("%d indexes are suggested; the console says there is none: %v", len(listed), none)
		}
		if sr.Examination != nil {
			var ms []measured
			for _, x := range sr.Examination.IndexResults {
				k := strings.SplitN(x.IndexTarget.String(), ":", 2)
				ms = append(ms, measured{k[0], strings.ReplaceAll(k[1], "+", ","), x.ExecutionTimeMillis})
			}
			if d := judgeResults(msgs, sr.Examination.OriginalTimeMillis, ms); d != "" {
				c.Fatalf("%s\n%s", d, all)
			}
			c.ClassIf(len(ms) > 1, "several indexes examined")
		}
		c.Class(b)
		if len(listed) > 1 || len(sent) > 0 {
			c.NonTrivial(fmt.Sprint(cat, sql, r))
		}
	})
}

func TestTraces(t *testing.T) {
	s := otelfake.Start()
	out := tool.Scratch("c29j.html")
	defer os.Remove(out)
	line := regexp.MustCompile(`^\[([0-9a-f]*)\] "(.*)" at (.*)$`)
	vt.Check(t, "traces", 150, func(c *vt.C) {
		var traces []*otelfake.Trace
		for i := rapid.IntRange(0, 5).Draw(c.T, "traces"); i > 0; i-- {
			traces = append(traces, otelfake.Gen(c.T, i, time.Unix(1700000000, 0), otelfake.Opt{MaxSpans: 8}))
		}
		c.Input("%v", traces)
		s.Reset(traces...)
		s.All = true
		var rep *tool.JaegerReport
		_, msgs, err := console(true, func() error {
			r, err, bad := s.Dig(out, "-s", "front", "-d", "1", "--start-from", time.Now().Add(-10*time.Minute).Format(time.RFC3339))
			rep = r
			if err == nil {
				err = bad
			}
			return err
		})
		if err != nil {
			c.Fatalf("%v", err)
		}
		var got, want []string
		on := false
		for _, m := range msgs {
			switch {
			case strings.HasPrefix(m, "found traces: ----start"):
				on = true
			case strings.HasPrefix(m, "found traces: ----end"):
				on = false
			case on:
				if x := line.FindStringSubmatch(m); x != nil {
					got = append(got, x[1]+" "+x[2]+" "+x[3])
				}
			}
		}
		for _, tr := range rep.SlowTraces {
			want = append(want, tr.TraceID+" "+tr.Root.Name+" "+tr.Root.ServiceName)
		}
		if strings.ContainsAny(strings.Join(want, ""), "\n\r\x1b") {
			return
		}
		if !reflect.DeepEqual(got, want) {
			c.Fatalf("the console lists %q, the report %q", got, want)
		}
		if len(want) > 1 {
			c.NonTrivial(fmt.Sprint(want))
		}
	})
}

// The password is not told to anybody, whatever goes wrong with the connection.
func TestPassword(t *testing.T) {
	my, pg := netfake.MySQL("tcp", "127.0.0.1:0"), netfake.Postgres()
	vt.Check(t, "password", 300, func(c *vt.C) {
		backend := gen.Pick(c.T, "backend", "mysql", "postgres")
		pw := secret(c)
		env := map[string]string{"DB_USERNAME": "u", "DB_PASSWORD": pw, "DB_DATABASE": "d", "DB_ADDRESS": my.Addr(), "DB_HOST": "127.0.0.1", "DB_PORT": pg.Port()}
		how := gen.Pick(c.T, "trouble", "query refused", "nobody listens", "unknown host", "bad parameters", "bad port", "no database", "bad protocol")
		var cmd *cobra.Command = suggest.MySqlCmd
		if backend == "postgres" {
			cmd = suggest.PostgresCmd
		}
		switch how {
		case "nobody listens":
			env["DB_ADDRESS"], env["DB_PORT"] = "127.0.0.1:1", "1"
		case "unknown host":
			env["DB_ADDRESS"], env["DB_HOST"] = "no such host:3306", "no such host"
		case "bad parameters":
			env["DB_PARAM_TEXT"] = gen.Pick(c.T, "param", "=", "x", "sslmode=what", "timeout=abc", "a=%zz", "'", "loc=Nowhere")
		case "bad port":
			env["DB_ADDRESS"], env["DB_PORT"] = "127.0.0.1:99999", "port"
		case "no database":
			delete(env, "DB_DATABASE")
		case "bad protocol":
			env["DB_PROTOCOL"] = "carrier(pigeon"
		}
		c.Input("%s, %s, password %q, parameters %q", backend, how, pw, env["DB_PARAM_TEXT"])
		for _, k := range []string{"DB_USERNAME", "DB_PASSWORD", "DB_PROTOCOL", "DB_ADDRESS", "DB_DATABASE", "DB_PARAM_TEXT", "DB_HOST", "DB_PORT", "DB_SEARCH_PATH"} {
			if v, ok := env[k]; ok {
				os.Setenv(k, v)
			} else {
				os.Unsetenv(k)
			}
		}
		flag.DbFlag.Output = ""
		_, msgs, err := console(gen.Chance(c.T, "verbose", 70), func() error { return tool.RunCmd(cmd, []string{"-q", "SELECT 1"}) })
		my.Take()
		pg.Take()
		if all := strings.Join(msgs, "\n"); strings.Contains(all, pw) {
			c.Fatalf("the password is on the console:\n%s", all)
		}
		c.ClassIf(err != nil, backend+": "+how)
		if err != nil {
			c.NonTrivial(backend + how + pw + env["DB_PARAM_TEXT"])
		}
	})
}
