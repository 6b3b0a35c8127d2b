package c22

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"
	"testing/fstest"
	"time"

	"gopkg.in/guregu/null.v4"
	"pgregory.net/rapid"

	"github.com/mrasu/GravityR/cmd/db/dig"
	"github.com/mrasu/GravityR/html"
	"github.com/mrasu/GravityR/html/viewmodel"
	"github.com/mrasu/GravityR/injection"
	"verif/harness/fakedb"
	"verif/harness/gen"
	"verif/harness/otelfake"
	"verif/harness/pifake"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// ---- text ----

var bits = []string{"a", "users", " ", "\n", "\t", "'", "\"", "`", "\\", "/", "</script>", "</SCRIPT ", "<script>", "<!--", "-->", "]]>", "<", ">", "&", "&lt;", "{{.}}", "${x}", "\u2028", "\u2029", "\u0000", "\u0001", "\u007f", "ü", "日本", "\U0001F600", "\uFEFF", "\\u003c", "*/", "/*", "//", "\r\n", "%s", "null", "undefined", ";", "\x1b[0m"}

func text(c *vt.C, label string) string {
	n := rapid.IntRange(0, 5).Draw(c.T, label+"n")
	s := ""
	for i := 0; i < n; i++ {
		s += rapid.SampledFrom(bits).Draw(c.T, label)
	}
	return s
}

func hostile(s string) bool { return strings.ContainsAny(s, "<>&\u2028\u2029\x00\\") }

var all []string

func str(c *vt.C, label string) string {
	s := text(c, label)
	all = append(all, s)
	return s
}

// ---- generated report data, with the value expected in the page ----

type M = map[string]interface{}
type L = []interface{}

func list[T any](c *vt.C, label string, max int, f func() (T, interface{})) ([]T, L) {
	n := rapid.IntRange(0, max).Draw(c.T, label)
	ts, l := []T{}, L{}
	for i := 0; i < n; i++ {
		t, v := f()
		ts, l = append(ts, t), append(l, v)
	}
	return ts, l
}

func nf(c *vt.C) (null.Float, interface{}) {
	if gen.Chance(c.T, "nil", 25) {
		return null.Float{}, nil
	}
	v := rapid.SampledFrom([]float64{0, 0.1, 1.5, 1e21, 1e-7, 123456.789, 0.000001, 99999999999.125}).Draw(c.T, "float")
	return null.FloatFrom(v), v
}

func ni(c *vt.C) (null.Int, interface{}) {
	if gen.Chance(c.T, "nil", 25) {
		return null.Int{}, nil
	}
	v := rapid.SampledFrom([]int64{0, 1, 7, 123456789, 9007199254740991}).Draw(c.T, "int")
	return null.IntFrom(v), float64(v)
}

func target(c *vt.C) (*viewmodel.VmIndexTarget, interface{}) {
	t := &viewmodel.VmIndexTarget{TableName: str(c, "table")}
	var l L
	t.Columns, l = list(c, "columns", 3, func() (*viewmodel.VmIndexColumn, interface{}) {
		n := str(c, "column")
		return &viewmodel.VmIndexColumn{Name: n}, M{"name": n}
	})
	return t, M{"tableName": t.TableName, "columns": l}
}

func option(c *vt.C) (*viewmodel.VmExaminationCommandOption, interface{}) {
	o := &viewmodel.VmExaminationCommandOption{IsShort: gen.Chance(c.T, "short", 50), Name: str(c, "option"), Value: str(c, "value")}
	return o, M{"isShort": o.IsShort, "name": o.Name, "value": o.Value}
}

func examination(c *vt.C) (*viewmodel.VmExaminationResult, interface{}) {
	if gen.Chance(c.T, "noexam", 50) {
		return nil, nil
	}
	r := &viewmodel.VmExaminationResult{OriginalTimeMillis: int64(rapid.IntRange(0, 1<<40).Draw(c.T, "ms"))}
	var l L
	r.IndexResults, l = list(c, "results", 2, func() (*viewmodel.VmExaminationIndexResult, interface{}) {
		t, v := target(c)
		ms := int64(rapid.IntRange(0, 1<<40).Draw(c.T, "ms"))
		return &viewmodel.VmExaminationIndexResult{ExecutionTimeMillis: ms, IndexTarget: t}, M{"executionTimeMillis": float64(ms), "indexTarget": v}
	})
	return r, M{"originalTimeMillis": float64(r.OriginalTimeMillis), "indexResults": l}
}

func mysqlNode(c *vt.C, depth int) (*viewmodel.VmMysqlExplainAnalyzeNode, interface{}) {
	n := &viewmodel.VmMysqlExplainAnalyzeNode{Text: str(c, "text"), Title: str(c, "title"), TableName: str(c, "tn")}
	m := M{"text": n.Text, "title": n.Title, "tableName": n.TableName}
	n.EstimatedInitCost, m["estimatedInitCost"] = nf(c)
	n.EstimatedCost, m["estimatedCost"] = nf(c)
	n.EstimatedReturnedRows, m["estimatedReturnedRows"] = ni(c)
	n.ActualTimeFirstRow, m["actualTimeFirstRow"] = nf(c)
	n.ActualTimeAvg, m["actualTimeAvg"] = nf(c)
	n.ActualReturnedRows, m["actualReturnedRows"] = ni(c)
	n.ActualLoopCount, m["actualLoopCount"] = ni(c)
	n.Children, m["children"] = nil, nil
	if depth > 0 {
		var l L
		n.Children, l = list(c, "children", 2, func() (*viewmodel.VmMysqlExplainAnalyzeNode, interface{}) { return mysqlNode(c, depth-1) })
		m["children"] = l
	}
	return n, m
}

func pgNode(c *vt.C, depth int) (*viewmodel.VmPostgresExplainAnalyzeNode, interface{}) {
	n := &viewmodel.VmPostgresExplainAnalyzeNode{Text: str(c, "text"), Title: str(c, "title"), TableName: str(c, "tn")}
	m := M{"text": n.Text, "title": n.Title, "tableName": n.TableName}
	n.EstimatedInitCost, m["estimatedInitCost"] = nf(c)
	n.EstimatedCost, m["estimatedCost"] = nf(c)
	n.EstimatedReturnedRows, m["estimatedReturnedRows"] = ni(c)
	n.EstimatedWidth, m["estimatedWidth"] = ni(c)
	n.ActualTimeFirstRow, m["actualTimeFirstRow"] = nf(c)
	n.ActualTimeAvg, m["actualTimeAvg"] = nf(c)
	n.ActualReturnedRows, m["actualReturnedRows"] = ni(c)
	n.ActualLoopCount, m["actualLoopCount"] = ni(c)
	n.Children, m["children"] = nil, nil
	if depth > 0 {
		var l L
		n.Children, l = list(c, "children", 2, func() (*viewmodel.VmPostgresExplainAnalyzeNode, interface{}) { return pgNode(c, depth-1) })
		m["children"] = l
	}
	return n, m
}

func span(c *vt.C, depth int) (*viewmodel.VmOtelTraceSpan, interface{}) {
	s := &viewmodel.VmOtelTraceSpan{Name: str(c, "name"), SpanId: str(c, "sid"), ServiceName: str(c, "svc"),
		StartTimeMillis: rapid.IntRange(0, 1<<41).Draw(c.T, "start"), EndTimeMillis: rapid.IntRange(0, 1<<41).Draw(c.T, "end")}
	m := M{"name": s.Name, "spanId": s.SpanId, "serviceName": s.ServiceName, "startTimeMillis": float64(s.StartTimeMillis), "endTimeMillis": float64(s.EndTimeMillis), "children": nil}
	if depth > 0 {
		var l L
		s.Children, l = list(c, "children", 2, func() (*viewmodel.VmOtelTraceSpan, interface{}) { return span(c, depth-1) })
		m["children"] = l
	}
	return s, m
}

func trace(c *vt.C) (*viewmodel.VmOtelCompactTrace, interface{}) {
	r, v := span(c, 2)
	t := &viewmodel.VmOtelCompactTrace{TraceId: str(c, "tid"), SameServiceAccessCount: rapid.IntRange(0, 99).Draw(c.T, "same"), TimeConsumingServiceName: str(c, "busy"), Root: r}
	return t, M{"traceId": t.TraceId, "sameServiceAccessCount": float64(t.SameServiceAccessCount), "timeConsumingServiceName": t.TimeConsumingServiceName, "root": v}
}

func loads(c *vt.C) (*viewmodel.VmTimeDbLoad, interface{}) {
	at := time.UnixMilli(int64(rapid.IntRange(0, 1<<41).Draw(c.T, "at"))).In(time.FixedZone("", rapid.IntRange(-12, 12).Draw(c.T, "zone")*3600))
	t := viewmodel.NewVmTimeDbLoad(at)
	var l L
	t.Databases, l = list(c, "databases", 2, func() (*viewmodel.VmDbLoad, interface{}) {
		d := viewmodel.NewVmDbLoad(str(c, "db"))
		var l L
		d.Sqls, l = list(c, "sqls", 2, func() (*viewmodel.VmDbLoadOfSql, interface{}) {
			q := &viewmodel.VmDbLoadOfSql{Sql: str(c, "sql"), TokenizedId: str(c, "tok"), LoadMax: rapid.Float64Range(0, 1e6).Draw(c.T, "max"), LoadSum: rapid.Float64Range(0, 1e6).Draw(c.T, "sum")}
			return q, M{"sql": q.Sql, "tokenizedId": q.TokenizedId, "loadMax": q.LoadMax, "loadSum": q.LoadSum}
		})
		return d, M{"name": d.Name, "sqls": l}
	})
	return t, M{"timestamp": float64(at.UnixMilli()), "databases": l}
}

func gqlVars(c *vt.C) (map[string]interface{}, interface{}) {
	m, v := map[string]interface{}{}, M{}
	for i := rapid.IntRange(0, 3).Draw(c.T, "vars"); i > 0; i-- {
		k := str(c, "key")
		s := str(c, "val")
		if gen.Chance(c.T, "nested", 30) {
			m[k], v[k] = []interface{}{s, nil, true, map[string]interface{}{s: 1.5}}, L{s, nil, true, M{s: 1.5}}
		} else {
			m[k], v[k] = s, s
		}
	}
	return m, v
}

func report(c *vt.C) (*html.BuildOption, interface{}, string) {
	sug := func(k string, v interface{}) M {
		m := M{"mysql": nil, "postgres": nil, "hasura": nil}
		m[k] = v
		return M{"suggestData": m, "digData": nil}
	}
	dig := func(k string, v interface{}) M {
		m := M{"performanceInsights": nil, "jaeger": nil}
		m[k] = v
		return M{"suggestData": nil, "digData": m}
	}
	kind := rapid.SampledFrom([]string{"mysql", "postgres", "hasura", "insights", "jaeger"}).Draw(c.T, "kind")
	switch kind {
	case "mysql", "postgres", "hasura":
		q, sum := str(c, "query"), str(c, "summary")
		ts, tl := list(c, "targets", 3, func() (*viewmodel.VmIndexTarget, interface{}) { return target(c) })
		os, ol := list(c, "options", 3, func() (*viewmodel.VmExaminationCommandOption, interface{}) { return option(c) })
		ex, exv := examination(c)
		m := M{"query": q, "indexTargets": tl, "examinationCommandOptions": ol, "examinationResult": exv}
		if kind == "mysql" {
			ns, nl := list(c, "nodes", 3, func() (*viewmodel.VmMysqlExplainAnalyzeNode, interface{}) { return mysqlNode(c, 2) })
			m["analyzeNodes"] = nl
			return html.NewSuggestMySQLDataBuildOption(q, ns, ts, os, ex), sug("mysql", m), kind
		}
		ns, nl := list(c, "nodes", 3, func() (*viewmodel.VmPostgresExplainAnalyzeNode, interface{}) { return pgNode(c, 2) })
		m["analyzeNodes"], m["summaryText"] = nl, sum
		if kind == "postgres" {
			return html.NewSuggestPostgresDataBuildOption(q, ns, sum, ts, os, ex), sug("postgres", m), kind
		}
		g := str(c, "gql")
		vs, vl := gqlVars(c)
		m["gql"], m["gqlVariables"] = g, vl
		return html.NewSuggestHasuraDataBuildOption(g, vs, q, ns, sum, ts, os, ex), sug("hasura", M{"postgres": m}), kind
	case "insights":
		a, al := list(c, "loads", 3, func() (*viewmodel.VmTimeDbLoad, interface{}) { return loads(c) })
		b, bl := list(c, "loads", 3, func() (*viewmodel.VmTimeDbLoad, interface{}) { return loads(c) })
		return html.NewPerformanceInsightsDataBuildOption(a, b), dig("performanceInsights", M{"sqlDbLoads": al, "tokenizedSqlDbLoads": bl}), kind
	}
	a, al := list(c, "slow", 3, func() (*viewmodel.VmOtelCompactTrace, interface{}) { return trace(c) })
	b, bl := list(c, "same", 3, func() (*viewmodel.VmOtelCompactTrace, interface{}) { return trace(c) })
	ui, x, y := str(c, "ui"), rapid.IntRange(0, 1<<30).Draw(c.T, "slowms"), rapid.IntRange(0, 1<<30).Draw(c.T, "thr")
	return html.NewDigJaegerBuildOption(ui, x, y, a, b), dig("jaeger", M{"uiPath": ui, "slowThresholdMilli": float64(x), "sameServiceThreshold": float64(y), "slowTraces": al, "sameServiceTraces": bl}), kind
}

// ---- bundles ----

var jsBits = []string{"console.log(1);", "var a='<b>&amp;';", "x=`${y}`;", "/* {{.}} */", "\"\\u003c\";", "a<b&&c>d;", "'日本';", "r=/[/\"']/g;", "\n", "// it's\n", "'{{template}}';"}
var cssBits = []string{"body{}", "a>b{color:red}", "@media (x){a{}}", ".c::before{content:\"\\201C\"}", "/* it's */", "\n", "a{background:url('x.png')}", ".日本{}"}

func bundles(c *vt.C) map[string]string {
	m := map[string]string{}
	for _, n := range []string{"main", "mermaid"} {
		js, css := "/*"+n+"*/", "/*"+n+"*/"
		for i := rapid.IntRange(0, 4).Draw(c.T, "js"); i > 0; i-- {
			js += rapid.SampledFrom(jsBits).Draw(c.T, "jsbit")
		}
		for i := rapid.IntRange(0, 4).Draw(c.T, "css"); i > 0; i-- {
			css += rapid.SampledFrom(cssBits).Draw(c.T, "cssbit")
		}
		m[n+".js"], m[n+".css"] = js, css
	}
	return m
}

func inject(m map[string]string) {
	fs := fstest.MapFS{}
	for k, v := range m {
		fs["client/dist/assets/"+k] = &fstest.MapFile{Data: []byte(v)}
	}
	injection.ClientDist = fs
}

// verifyPage tells whether the page holds the bundle of the given kind.
func verifyPage(p *tool.Page, b map[string]string, bundle string) string {
	if len(p.Styles) != 1 || p.Styles[0] != b[bundle+".css"] {
		return fmt.Sprintf("the styles are %q, want %q", p.Styles, b[bundle+".css"])
	}
	if len(p.Scripts) != 2 || p.Scripts[1] != b[bundle+".js"] {
		return fmt.Sprintf("the scripts are %.500q, want the data and %q", p.Scripts, b[bundle+".js"])
	}
	return ""
}

func TestPage(t *testing.T) {
	vt.Check(t, "page", 2500, func(c *vt.C) {
		all = nil
		bo, want, kind := report(c)
		b := bundles(c)
		inject(b)
		typ, bundle := html.TypeMain, "main"
		if kind == "jaeger" {
			typ, bundle = html.TypeMermaid, "mermaid"
		}
		wj, _ := json.Marshal(want)
		c.Input("data: %s\nbundle: %q", wj, b)
		c.Class(kind)
		h := false
		for _, s := range all {
			h = h || hostile(s)
		}
		c.ClassIf(h, "text with a meaning in HTML or JavaScript")
		if h {
			c.NonTrivial(string(wj))
		}
		out := tool.Scratch("p.html")
		defer os.Remove(out)
		if gen.Chance(c.T, "existing", 30) {
			c.Class("file exists")
			old := strings.Repeat("</script>old", rapid.SampledFrom([]int{1, 100, 5000}).Draw(c.T, "old"))
			if err := os.WriteFile(out, []byte(old), 0o644); err != nil {
				c.Fatalf("HARNESS: %v", err)
			}
		}
		if err := html.CreateHtml(typ, out, bo); err != nil {
			c.Fatalf("CreateHtml: %v", err)
		}
		raw, err := os.ReadFile(out)
		if err != nil {
			c.Fatalf("no page: %v", err)
		}
		if bytes.Contains(raw, []byte("old</script>old")) || !strings.HasSuffix(strings.TrimSpace(string(raw)), "</html>") {
			c.Fatalf("the page is not complete or keeps text of the file it replaces: %.200q", raw[max(0, len(raw)-200):])
		}
		p, err := tool.ParseHTML(raw)
		if err != nil {
			c.Fatalf("%v", err)
		}
		if s := verifyPage(p, b, bundle); s != "" {
			c.Fatalf("%s", s)
		}
		var got interface{}
		if err := json.Unmarshal(p.Param, &got); err != nil {
			c.Fatalf("embedded data: %v", err)
		}
		if d := diff("", got, want); d != "" {
			c.Fatalf("%s", d)
		}
	})
}

func diff(at string, got, want interface{}) string {
	switch w := want.(type) {
	case M:
		g, ok := got.(M)
		if !ok {
			return fmt.Sprintf("%s is %v", at, got)
		}
		for k := range w {
			gv, ok := g[k]
			if !ok {
				return at + "." + k + " is missing"
			}
			if d := diff(at+"."+k, gv, w[k]); d != "" {
				return d
			}
		}
		return ""
	case L:
		g, ok := got.(L)
		if (got == nil || ok) && len(g) == 0 && len(w) == 0 {
			return ""
		}
		if !ok || len(g) != len(w) {
			return fmt.Sprintf("%s is %v, want %d entries", at, got, len(w))
		}
		for i := range w {
			if d := diff(fmt.Sprintf("%s[%d]", at, i), g[i], w[i]); d != "" {
				return d
			}
		}
		return ""
	case nil:
		if g, ok := got.(L); ok && len(g) == 0 || got == nil {
			return ""
		}
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("%s is %#v, want %#v", at, got, want)
	}
	return ""
}

// ---- the program ----

var grBundles = map[string]string{"main.js": "console.log('main <b>');", "main.css": ".m{}", "mermaid.js": "console.log('mermaid && x');", "mermaid.css": ".d{}"}

var gr = sync.OnceValues(func() (string, error) {
	repo, dir := os.Getenv("VERIF_REPO"), os.Getenv("VERIF_SCRATCH")
	rep := map[string]string{}
	for k, v := range grBundles {
		p := filepath.Join(dir, "asset-"+k)
		if err := os.WriteFile(p, []byte(v), 0o644); err != nil {
			return "", err
		}
		rep[filepath.Join(repo, "client/dist/assets", k)] = p
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(dir, "assets.json")
	if err := os.WriteFile(ov, j, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "gr")
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", bin, ".")
	cmd.Dir = repo
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
})

func catalogue() *fakedb.Catalog {
	return &fakedb.Catalog{Tables: []*fakedb.Table{{Schema: "public", Name: "users",
		Columns: []fakedb.Column{{Name: "id"}, {Name: "name"}, {Name: "email"}},
		Indexes: []fakedb.Index{{Name: "users_pk", Columns: []string{"id"}, Primary: true, Unique: true}}}}}
}

func TestProgram(t *testing.T) {
	bin, err := gr()
	if err != nil {
		t.Fatalf("the program does not build: %v", err)
	}
	jaeger := otelfake.Start()
	vt.Check(t, "program", 260, func(c *vt.C) {
		app := gen.Chance(c.T, "jaeger", 40)
		dir := tool.Scratch("d")
		_ = os.Mkdir(dir, 0o755)
		defer os.RemoveAll(dir)

		back := tool.NewServer("hasura", catalogue())
		back.SQL = "SELECT name FROM users WHERE email = 'a'"
		defer back.Close()
		env := map[string]string{"HASURA_URL": back.URL().String(), "HASURA_ADMIN_SECRET": "s", "JAEGER_UI_URL": "http://ui", "JAEGER_GRPC_ADDRESS": jaeger.Addr}
		jaeger.Reset(otelfake.Gen(c.T, 1, time.Now().Add(-time.Hour), otelfake.Opt{MaxSpans: 4}))

		var args []string
		q := text(c, "q")
		q = strings.ReplaceAll(q, "\x00", "")
		if app {
			args = []string{"app", "dig", "jaeger", "-s", "front", "-d", "0"}
		} else {
			args = []string{"db", "suggest", "hasura", "postgres", "-q", q}
			if gen.Chance(c.T, "examine", 30) {
				args = append(args, "--with-examine")
			}
		}
		if gen.Chance(c.T, "verbose", 40) {
			args = append(args, "--verbose")
		}

		// where the report goes
		file := filepath.Join(dir, "out.html")
		arg := rapid.SampledFrom([]string{"out.html", "./out.html", "sub/../out.html", file, dir + "/./out.html"}).Draw(c.T, "path")
		_ = os.Mkdir(filepath.Join(dir, "sub"), 0o755)
		bad, quiet := "", false
		switch rapid.IntRange(0, 9).Draw(c.T, "case") {
		case 0:
			bad = "missing directory"
			arg, file = "none/out.html", filepath.Join(dir, "none", "out.html")
		case 1:
			bad = "output is a directory"
			arg, file = "sub", filepath.Join(dir, "sub", "x")
		case 2:
			bad = "device full"
			if err := os.Symlink("/dev/full", file); err != nil {
				c.Fatalf("HARNESS: %v", err)
			}
		case 3:
			bad, quiet = "no output given", true
			arg = ""
		case 4:
			if app {
				bad, quiet = "no service given", true
				args = append(args[:3:3], args[5:]...)
			} else {
				bad, quiet = "no query given", true
				args = append(args[:4:4], args[6:]...)
			}
		case 5:
			bad, quiet = "unknown flag", true
			args = append(args, rapid.SampledFrom([]string{"--nope", "-Z", "--output"}).Draw(c.T, "flag"))
		case 6:
			bad = "server unreachable"
			env["HASURA_URL"] = "http://127.0.0.1:1"
			if app { // refusing at once what would otherwise be waited for
				bad = "server fails"
				jaeger.FailAt, jaeger.FailAfter = rapid.IntRange(1, 40).Draw(c.T, "nth"), -1
			}
		case 7:
			if gen.Chance(c.T, "existing", 60) {
				_ = os.WriteFile(file, bytes.Repeat([]byte("old text "), 4000), 0o644)
				c.Class("file exists")
			}
			if !app {
				bad = "server fails"
				n := rapid.IntRange(1, 3).Draw(c.T, "nth")
				i := 0
				back.Fault = func(*fakedb.Stmt) error {
					if i++; i == n {
						return &fakedb.HTTPFault{Status: 500, Body: "x"}
					}
					return nil
				}
			}
		}
		if arg != "" {
			o := rapid.SampledFrom([]string{"-o", "--output"}).Draw(c.T, "o")
			args = append([]string{args[0], o, arg}, args[1:]...)
		}
		var before []byte
		if bad != "device full" {
			before, _ = os.ReadFile(file)
		}
		c.Input("gr %q (%s)", args, bad)
		c.ClassIf(bad != "", bad)
		c.ClassIf(bad == "", "good")
		c.NonTrivial(fmt.Sprintf("%q %s", args, bad))

		cmd := exec.Command(bin, args...)
		cmd.Dir = dir
		cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin", "TZ=UTC"}
		for k, v := range env {
			cmd.Env = append(cmd.Env, k+"="+v)
		}
		var se, so bytes.Buffer
		cmd.Stderr, cmd.Stdout = &se, &so
		err := cmd.Run()
		code := cmd.ProcessState.ExitCode()
		if err != nil && code < 0 {
			c.Fatalf("the program ended with %v", err)
		}
		if code == 2 && strings.Contains(se.String(), "goroutine ") {
			c.Fatalf("the program crashed: %.2000s", se.String())
		}
		if (code == 0) != (bad == "") {
			c.Fatalf("exit status %d; it printed %.1000s", code, se.String())
		}
		if bad != "" {
			if strings.TrimSpace(se.String()) == "" {
				c.Fatalf("exit status %d without any message", code)
			}
			if bad != "device full" {
				if now, _ := os.ReadFile(file); !bytes.Equal(now, before) {
					c.Fatalf("exit status %d, but the output file changed: %.100q", code, now)
				}
			}
			if quiet && (len(back.Log) > 0 || jaeger.Asked() > 0) {
				c.Fatalf("requests were sent although the arguments are wrong")
			}
			return
		}
		p, err := tool.ReadReport(file)
		if err != nil {
			c.Fatalf("exit status 0, report: %v", err)
		}
		bundle := "main"
		if app {
			bundle = "mermaid"
		}
		if s := verifyPage(p, grBundles, bundle); s != "" {
			c.Fatalf("%s", s)
		}
		r, err := p.Decode()
		if err != nil {
			c.Fatalf("report: %v", err)
		}
		if app {
			if r.DigData == nil || r.DigData.Jaeger == nil || r.SuggestData != nil {
				c.Fatalf("the report is not the one of a Jaeger dig: %s", p.Param)
			}
		} else if s, err := r.SuggestOf("hasura"); err != nil || s.Gql != q {
			c.Fatalf("the report shows query %v (%v)", s, err)
		}
		named := false
		want, _ := os.Stat(file)
		for _, w := range strings.Fields(se.String() + " " + so.String()) {
			if !filepath.IsAbs(w) || filepath.Base(w) != "out.html" {
				continue
			}
			if got, err := os.Stat(w); err != nil || !os.SameFile(got, want) {
				c.Fatalf("the report is at %s, the program says it is at %s", file, w)
			}
			named = true
		}
		if !named {
			c.Fatalf("the report is at %s, which the program does not say: %.300s", file, se.String())
		}
	})
}

func TestVersion(t *testing.T) {
	bin, err := gr()
	if err != nil {
		t.Fatalf("the program does not build: %v", err)
	}
	out, err := exec.Command(bin, "version").Output()
	if err != nil || len(bytes.TrimSpace(out)) == 0 {
		t.Fatalf("gr version: %v %q", err, out)
	}
}

// A report which cannot be written makes the run fail, whatever the command.
func TestUnwritable(t *testing.T) {
	jaeger := otelfake.Start()
	kinds := append([]string{"insights", "jaeger"}, tool.Backends...)
	vt.Check(t, "unwritable", 250, func(c *vt.C) {
		inject(map[string]string{"main.js": "1;", "main.css": "a{}", "mermaid.js": "2;", "mermaid.css": "b{}"})
		kind := gen.Pick(c.T, "kind", kinds...)
		how := gen.Pick(c.T, "how", "missing directory", "directory", "file as a directory", "device full", "name too long", "writable")
		dir := tool.Scratch("u")
		_ = os.Mkdir(dir, 0o755)
		defer os.RemoveAll(dir)
		out := filepath.Join(dir, "out.html")
		switch how {
		case "missing directory":
			out = filepath.Join(dir, "none", "out.html")
		case "directory":
			_ = os.Mkdir(out, 0o755)
		case "file as a directory":
			_ = os.WriteFile(out, []byte("x"), 0o644)
			out = filepath.Join(out, "out.html")
		case "device full":
			_ = os.Symlink("/dev/full", out)
		case "name too long":
			out = filepath.Join(dir, strings.Repeat("n", 300))
		}
		c.Input("%s, %s", kind, how)
		var err error
		switch kind {
		case "insights":
			v := 1.5
			at := time.Date(2022, 8, 1, 0, 0, 0, 0, time.UTC)
			a := &pifake.Account{Zone: time.UTC, RdsPage: 100, Instances: []*pifake.Instance{{Name: "db", Resource: "R", Engine: "mysql", SQL: []*pifake.Series{{SQL: "SELECT 1", Token: "T", Points: []pifake.Point{{At: at.Add(time.Hour), Value: &v}}}}}}}
			err = dig.VerifPiDig(out, at.Format(time.RFC3339), a.Rds(), a.PI())
		case "jaeger":
			jaeger.Reset(otelfake.Gen(c.T, 1, time.Now().Add(-time.Hour), otelfake.Opt{MaxSpans: 4}))
			err = tool.JaegerDig(out, "http://ui", jaeger.Addr, []string{"-s", "front", "-d", "0"})
		default:
			srv := tool.NewServer(kind, catalogue())
			srv.Schema = tool.Schema(kind)
			for _, tb := range srv.Cat.Tables {
				tb.Schema = srv.Schema
			}
			srv.SQL = "SELECT name FROM users WHERE email = 'a'"
			q := srv.SQL
			if kind == "hasura" {
				q = "query { x { id } }"
			}
			err = tool.Run(srv, tool.Suggest{Backend: kind, Query: q, Output: out, Examine: gen.Chance(c.T, "examine", 30)})
			srv.Close()
			if srv.Harness != nil {
				c.Skip(srv.Harness.Error())
			}
		}
		if (err == nil) != (how == "writable") {
			c.Fatalf("the run ended with %v", err)
		}
		if err == nil {
			if _, err := tool.ReadReport(out); err != nil {
				c.Fatalf("%v", err)
			}
		}
		c.Class(kind)
		c.NonTrivial(kind + how)
	})
}
