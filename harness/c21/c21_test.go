package c21

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"reflect"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	hcmd "github.com/mrasu/GravityR/cmd/db/suggest/hasura"
	"github.com/mrasu/GravityR/cmd/flag"
	"verif/harness/fakedb"
	"verif/harness/gen"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

type request struct {
	Method, Path, RawQuery, Secret, User, Pass string
	Body                                       []byte
}

// front stands for whatever sits before Hasura: it records requests and hands those below the prefix on.
type front struct {
	mu     sync.Mutex
	prefix string
	back   *fakedb.Server
	log    []request
	srv    *httptest.Server
}

func newFront() *front {
	f := &front{}
	f.srv = httptest.NewServer(f)
	return f
}

func (f *front) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	f.mu.Lock()
	defer f.mu.Unlock()
	b, _ := io.ReadAll(r.Body)
	u, p, _ := r.BasicAuth()
	f.log = append(f.log, request{r.Method, r.URL.Path, r.URL.RawQuery, r.Header.Get("X-Hasura-Admin-Secret"), u, p, b})
	if !strings.HasPrefix(r.URL.Path, f.prefix) {
		w.WriteHeader(404)
		return
	}
	r2 := r.Clone(r.Context())
	r2.Body = io.NopCloser(bytes.NewReader(b))
	r2.URL.Path = strings.TrimPrefix(r.URL.Path, f.prefix)
	f.back.Serve(w, r2)
}

func catalogue() *fakedb.Catalog {
	return &fakedb.Catalog{Tables: []*fakedb.Table{{Schema: "public", Name: "users",
		Columns: []fakedb.Column{{Name: "id"}, {Name: "name"}, {Name: "email"}},
		Indexes: []fakedb.Index{{Name: "users_pk", Columns: []string{"id"}, Primary: true, Unique: true}}}}}
}

const sql = "SELECT name FROM users WHERE email = 'a' AND name = 'b'"

// ---- JSON values as text, and their meaning ----

var nums = []string{"0", "1", "-1", "7", "42", "0.1", "-0.5", "1.50", "9007199254740993", "-9007199254740993", "18446744073709551615",
	"123456789012345678901234567890", "0.30000000000000000001", "1e3", "1.5E-7", "1e21", "100000000000000000000", "3.14159265358979323846", "1e400", "9223372036854775807"}

var strs = []string{"", "a", "it's", `q"u`, `back\slash`, "</script>", "<!--", "&<>", "ünï", "日本", "\u2028x", "tab\tnl\n", "$1", "%s", "`x`", "9007199254740993", "null", "{{.}}"}

var keys = []string{"id", "name", "limit", "where", "_eq", "a b", "x-y", "キー", "</script>", "q\"", "ID"}

func encStr(s string, ascii bool) string {
	if !ascii {
		var b bytes.Buffer
		e := json.NewEncoder(&b)
		e.SetEscapeHTML(false)
		_ = e.Encode(s)
		return strings.TrimSpace(b.String())
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		fmt.Fprintf(&b, `\u%04x`, r) // all in the basic plane
	}
	b.WriteByte('"')
	return b.String()
}

func value(c *vt.C, depth int, big *bool) string {
	k := rapid.IntRange(0, 9).Draw(c.T, "kind")
	switch {
	case k <= 3:
		n := rapid.SampledFrom(nums).Draw(c.T, "num")
		if len(strings.Trim(n, "-")) > 15 || n == "1e400" {
			*big = true
		}
		return n
	case k <= 5:
		return encStr(rapid.SampledFrom(strs).Draw(c.T, "str"), gen.Chance(c.T, "ascii", 20))
	case k == 6:
		return rapid.SampledFrom([]string{"true", "false", "null"}).Draw(c.T, "lit")
	case k == 7 && depth > 0:
		n := rapid.IntRange(0, 3).Draw(c.T, "len")
		var o []string
		for i := 0; i < n; i++ {
			o = append(o, value(c, depth-1, big))
		}
		return "[" + strings.Join(o, ", ") + "]"
	case depth > 0:
		return object(c, depth-1, big)
	}
	return "0"
}

func object(c *vt.C, depth int, big *bool) string {
	n := rapid.IntRange(0, 3).Draw(c.T, "fields")
	ks := gen.Subset(c.T, "keys", keys, n)
	var o []string
	for _, k := range ks {
		o = append(o, encStr(k, false)+":"+value(c, depth, big))
	}
	sp := rapid.SampledFrom([]string{"", " ", "\n"}).Draw(c.T, "space")
	return sp + "{" + sp + strings.Join(o, ","+sp) + "}" + sp
}

// meaning decodes JSON with numbers as exact rationals.
func meaning(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, errors.New("text after the value")
	}
	return norm(v), nil
}

func norm(v interface{}) interface{} {
	switch x := v.(type) {
	case json.Number:
		r, ok := new(big.Rat).SetString(string(x))
		if !ok {
			return "bad number " + string(x)
		}
		return "number " + r.String()
	case map[string]interface{}:
		o := map[string]interface{}{}
		for k, e := range x {
			o[k] = norm(e)
		}
		return o
	case []interface{}:
		o := []interface{}{}
		for _, e := range x {
			o = append(o, norm(e))
		}
		return o
	case string:
		return "string " + x
	}
	return v
}

func at(v interface{}, path ...string) interface{} {
	for _, p := range path {
		m, _ := v.(map[string]interface{})
		v = m[p]
	}
	return v
}

var gqls = []string{"query", "{", "}", " ", "\n", "users", "(where: {name: {_eq: \"a\\\"b\"}})", "$id: bigint!", "# c", "\"\"\"", "é", "日本", "</script>", "&", "<", "\t", ",", "\\u0041", "name", "\u2028"}

func gql(c *vt.C) string {
	n := rapid.IntRange(0, 8).Draw(c.T, "gqln")
	s := ""
	for i := 0; i < n; i++ {
		s += rapid.SampledFrom(gqls).Draw(c.T, "gql")
	}
	return s
}

func sub(s string) string {
	u, _ := url.Parse(s)
	return strings.TrimRight(u.Path, "/")
}

func run(query, vars string, given bool, output string, examine bool, indexes []string) error {
	flag.DbFlag.Output = output
	args := []string{"--query=" + query}
	if given {
		args = append(args, "--json-variables="+vars)
	}
	if examine {
		args = append(args, "--with-examine")
	}
	for _, i := range indexes {
		args = append(args, "-i", i)
	}
	return tool.RunCmd(hcmd.PostgresCmd, args)
}

func TestRequests(t *testing.T) {
	f := newFront()
	vt.Check(t, "requests", 1500, func(c *vt.C) {
		pre := rapid.SampledFrom([]string{"", "", "/", "/hasura", "/hasura/", "/a/b", "/a/b/", "/my%20app", "/v1", "/graphql/"}).Draw(c.T, "prefix")
		user := rapid.SampledFrom([]string{"", "", "", "u:p@", "me:s%40x@"}).Draw(c.T, "userinfo")
		base := "http://" + user + strings.TrimPrefix(f.srv.URL, "http://") + pre
		rawQuery := rapid.SampledFrom([]string{"", "", "", "", "key=a%20b&x", "t=1"}).Draw(c.T, "urlquery")
		if rawQuery != "" {
			base += "?" + rawQuery
		}
		secret := rapid.SampledFrom([]string{"s3cret", "a b", "p@ss:w/o=rd?&%41", "\"quoted\"", "ü", "'", "x,y;z", "#{$}"}).Draw(c.T, "secret")
		q := gql(c)
		given := gen.Chance(c.T, "given", 85)
		vars, bigNum := "{}", false
		if given {
			vars = object(c, 2, &bigNum)
		}
		examine := gen.Chance(c.T, "examine", 50)
		var idx []string
		if examine && gen.Chance(c.T, "idx", 50) {
			idx = []string{"users:email"}
		}
		c.Input("HASURA_URL=%s HASURA_ADMIN_SECRET=%q\nquery: %q\nvariables: %s (given: %v)\nexamine: %v %v", base, secret, q, vars, given, examine, idx)
		c.ClassIf(bigNum, "numbers beyond double precision")
		c.ClassIf(pre != "" && pre != "/", "base path")
		c.ClassIf(user != "", "user info in the URL")
		c.ClassIf(examine, "examination")
		if bigNum || len(q) > 20 || sub(base) != "" {
			c.NonTrivial(base + q + vars)
		}
		want, err := meaning([]byte(vars))
		if err != nil {
			c.Fatalf("HARNESS: %v", err)
		}
		f.mu.Lock()
		f.prefix, f.log = sub(base), nil
		f.back = tool.NewServer("hasura", catalogue())
		f.back.SQL = sql
		f.mu.Unlock()
		os.Setenv("HASURA_URL", base)
		os.Setenv("HASURA_ADMIN_SECRET", secret)
		out := tool.Scratch("r.html")
		defer os.Remove(out)
		if err := run(q, vars, given, out, examine, idx); err != nil {
			c.Fatalf("the run failed: %v", err)
		}
		wantUser, wantPass := "", ""
		if user != "" {
			wantUser, wantPass = "u", "p"
			if user != "u:p@" {
				wantUser, wantPass = "me", "s@x"
			}
		}
		explains, runs := 0, 0
		for _, r := range f.log {
			if r.Method != "POST" || r.Secret != secret || r.User != wantUser || r.Pass != wantPass || r.RawQuery != rawQuery {
				c.Fatalf("request %s %s?%s with secret %q and user %q", r.Method, r.Path, r.RawQuery, r.Secret, r.User)
			}
			body, err := meaning(r.Body)
			if err != nil {
				c.Fatalf("request %s: the body is no JSON: %v", r.Path, err)
			}
			switch strings.TrimPrefix(r.Path, f.prefix) {
			case "/v1/graphql/explain":
				explains++
				if at(body, "query", "query") != "string "+q || !reflect.DeepEqual(at(body, "query", "variables"), want) {
					c.Fatalf("explain request carries %s", r.Body)
				}
			case "/v1/graphql":
				runs++
				if at(body, "query") != "string "+q || !reflect.DeepEqual(at(body, "variables"), want) {
					c.Fatalf("query request carries %s", r.Body)
				}
			case "/v2/query":
				s, _ := at(body, "args", "sql").(string)
				up := strings.ToUpper(strings.TrimPrefix(s, "string "))
				reads := strings.HasPrefix(strings.TrimSpace(up), "SELECT") || strings.HasPrefix(strings.TrimSpace(up), "WITH")
				if reads && at(body, "args", "read_only") != true {
					c.Fatalf("catalogue query not marked read only: %s", r.Body)
				}
				if !reads && !examine {
					c.Fatalf("a statement that changes the database was sent without examination: %s", r.Body)
				}
			default:
				c.Fatalf("request to %s", r.Path)
			}
		}
		if explains != 1 || (runs > 0) != examine {
			c.Fatalf("%d explain requests, %d query requests, examination: %v", explains, runs, examine)
		}
		page, err := tool.ReadReport(out)
		if err != nil {
			c.Fatalf("report: %v", err)
		}
		rep, err := page.Decode()
		if err != nil {
			c.Fatalf("report: %v", err)
		}
		s, err := rep.SuggestOf("hasura")
		if err != nil {
			c.Fatalf("report: %v", err)
		}
		m, _ := meaning(page.Param)
		got := at(m, "suggestData", "hasura", "postgres", "gqlVariables")
		if s.Gql != q || s.Query != sql || !reflect.DeepEqual(got, want) {
			c.Fatalf("the report shows query %q, SQL %q, variables %v", s.Gql, s.Query, got)
		}
		for _, o := range s.Options {
			if o.Name == "q" && o.Value != q || o.Name == "json-variables" && o.Value != vars {
				c.Fatalf("the command to run again has %s=%q", o.Name, o.Value)
			}
		}
	})
}

func TestBadVariables(t *testing.T) {
	f := newFront()
	vt.Check(t, "bad variables", 250, func(c *vt.C) {
		b := false
		v := object(c, 1, &b)
		switch rapid.IntRange(0, 4).Draw(c.T, "how") {
		case 0: // cut
			v = strings.TrimSpace(v)
			v = v[:rapid.IntRange(0, len(v)-1).Draw(c.T, "cut")]
		case 1: // something after the object
			v = strings.TrimSpace(v) + rapid.SampledFrom([]string{"}", " {}", "1", ",", " x", "]", "\n{\"a\":1}", "null"}).Draw(c.T, "tail")
		case 2: // another kind of value
			v = rapid.SampledFrom([]string{"", "[]", "1", "\"a\"", "true", "[{}]", " ", "9007199254740993"}).Draw(c.T, "other")
		case 3: // no JSON
			v = rapid.SampledFrom([]string{"{a:1}", "{'a':1}", "{\"a\":01}", "{\"a\":1,}", "{\"a\":NaN}", "{\"a\" 1}", "{\"a\":+1}", "{\"a\":.5}", "{\"a\":0x10}", "{\"a\":\"\n\"}"}).Draw(c.T, "text")
		case 4:
			v = strings.Replace(v, "{", "{\"k\":"+rapid.SampledFrom([]string{"tru", "1 2", "\"", "]", "--1", "1e"}).Draw(c.T, "bad")+",", 1)
		}
		c.Input("variables: %q", v)
		c.NonTrivial(v)
		f.mu.Lock()
		f.prefix, f.log = "", nil
		f.back = tool.NewServer("hasura", catalogue())
		f.back.SQL = sql
		f.mu.Unlock()
		os.Setenv("HASURA_URL", f.srv.URL)
		os.Setenv("HASURA_ADMIN_SECRET", "s")
		out := tool.Scratch("r.html")
		err := run("{users{id}}", v, true, out, gen.Chance(c.T, "examine", 50), nil)
		if err == nil {
			c.Fatalf("text that is no JSON object was accepted")
		}
		if len(f.log) != 0 {
			c.Fatalf("%d requests were sent", len(f.log))
		}
		if _, err := os.Stat(out); err == nil {
			c.Fatalf("a report was written")
		}
	})
}

func TestFailingAnswers(t *testing.T) {
	f := newFront()
	vt.Check(t, "failing answers", 1200, func(c *vt.C) {
		examine := gen.Chance(c.T, "examine", 60)
		n := 3
		if examine {
			n = rapid.IntRange(1, 12).Draw(c.T, "requests")
		}
		at := rapid.IntRange(1, n).Draw(c.T, "failing request")
		how := rapid.IntRange(0, 6).Draw(c.T, "how")
		fault := &fakedb.HTTPFault{}
		raw := ""
		expl := 1
		desc := ""
		onlyRuns := false
		switch how {
		case 0:
			fault.Status = rapid.SampledFrom([]int{400, 401, 403, 404, 429, 500, 502, 503}).Draw(c.T, "status")
			fault.Body = rapid.SampledFrom([]string{"", "{}", "[]", "<html>", `[{"field":"f","plan":["Seq Scan on t"],"sql":"SELECT name FROM users"}]`, `{"result_type":"TuplesOk","result":[["a"]]}`, `{"data":{}}`}).Draw(c.T, "body")
			desc = fmt.Sprintf("status %d %q", fault.Status, fault.Body)
		case 1:
			fault.Drop = true
			desc = "connection dropped"
		case 2:
			fault.Partial = true
			fault.Body = rapid.SampledFrom([]string{"", "[", "{\"data\":{}", "{\"data\":{}}", "[]", `{"result_type":"CommandOk","result":null}`}).Draw(c.T, "body")
			desc = fmt.Sprintf("body cut after %q", fault.Body)
		case 3, 4:
			fault = nil
			raw = rapid.SampledFrom([]string{"<html>login</html>", "{", "nope", "{\"data\":", "[{]", "\x00"}).Draw(c.T, "raw")
			desc = fmt.Sprintf("answer %q", raw)
		case 5:
			at = 1
			fault = nil
			expl = rapid.SampledFrom([]int{-1, 2, 3}).Draw(c.T, "explains")
			desc = fmt.Sprintf("%d plans", expl)
		case 6: // errors of GraphQL come with status 200
			fault = nil
			onlyRuns = true
			examine = true
			at = rapid.IntRange(1, 4).Draw(c.T, "failing run")
			raw = rapid.SampledFrom([]string{`{"errors":[{"message":"a"}]}`, `{"errors":[{"message":"a"},{"message":"b"}]}`, `{"data":null,"errors":[{"message":"a","extensions":{"code":"x"}},{"message":"b"},{"message":"c"}]}`,
				`{"data":{"users":[{"id":1}]},"errors":[{}]}`, ` {"errors" : [ {"message":"日本"} ] , "data": {} }`}).Draw(c.T, "errors")
			desc = fmt.Sprintf("only the query counts, answer %q", raw)
		}
		c.Input("request %d: %s; examination: %v", at, desc, examine)
		f.mu.Lock()
		f.prefix, f.log = "", nil
		f.back = tool.NewServer("hasura", catalogue())
		f.back.SQL = sql
		if expl != 1 {
			f.back.ExplainN = expl
		}
		hit := expl != 1
		isRun := false
		i := 0
		f.back.Fault = func(s *fakedb.Stmt) error {
			i++
			if i == at && fault != nil {
				hit = true
				return fault
			}
			return nil
		}
		j := 0
		f.back.RawAnswer = func(s *fakedb.Stmt) (string, bool) {
			if onlyRuns && s.Kind != "run" {
				return "", false
			}
			j++
			if j == at && raw != "" {
				hit = true
				isRun = s.Kind == "run"
				return raw, true
			}
			return "", false
		}
		f.mu.Unlock()
		os.Setenv("HASURA_URL", f.srv.URL)
		os.Setenv("HASURA_ADMIN_SECRET", "s")
		out := tool.Scratch("r.html")
		defer os.Remove(out)
		err := run("{users{id}}", "{}", true, out, examine, nil)
		_, serr := os.Stat(out)
		if !hit {
			c.Class("not reached")
			if err != nil || serr != nil {
				c.Fatalf("nothing failed, but the run ended with %v (report: %v)", err, serr)
			}
			return
		}
		c.NonTrivial(fmt.Sprint(at, desc, examine))
		c.ClassIf(isRun, "unreadable answer to the query itself")
		c.ClassIf(at > 3, "during the examination")
		if err == nil || serr == nil {
			c.Fatalf("the run ended with %v, a report was written: %v", err, serr == nil)
		}
	})
}

func TestMissing(t *testing.T) {
	f := newFront()
	vt.Check(t, "missing", 30, func(c *vt.C) {
		k := rapid.SampledFrom([]string{"HASURA_URL", "HASURA_ADMIN_SECRET"}).Draw(c.T, "missing")
		os.Setenv("HASURA_URL", f.srv.URL)
		os.Setenv("HASURA_ADMIN_SECRET", "s")
		if gen.Chance(c.T, "empty", 50) {
			os.Setenv(k, "")
		} else {
			os.Unsetenv(k)
		}
		c.Input("without %s", k)
		c.NonTrivial(k)
		out := tool.Scratch("r.html")
		err := run("{users{id}}", "{}", true, out, false, nil)
		if err == nil || !strings.Contains(err.Error(), k) {
			c.Fatalf("the run ended with %v", err)
		}
		if len(f.log) != 0 {
			c.Fatalf("%d requests were sent", len(f.log))
		}
		if _, err := os.Stat(out); err == nil {
			c.Fatalf("a report was written")
		}
	})
}
