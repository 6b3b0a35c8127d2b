package c20

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/mrasu/GravityR/cmd/db/suggest"
	"github.com/mrasu/GravityR/cmd/flag"
	"verif/harness/gen"
	"verif/harness/netfake"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) {
	for _, e := range os.Environ() {
		if k := strings.SplitN(e, "=", 2)[0]; strings.HasPrefix(k, "PG") || strings.HasPrefix(k, "DB_") {
			os.Unsetenv(k)
		}
	}
	vt.Main(m)
}

var pieces = []string{"a", "B", "7", "pw", "'", "\\", " ", "=", "@", ":", "/", "?", "#", "%", "%41", "&", "\"", "$", "(", ")", "''", "\\'", "ü", "日本", "\t", ";", "tcp(x)", "\n", "sslmode=require", "+"}

func text(c *vt.C, label string, min, max int, not string) string {
	n := rapid.IntRange(min, max).Draw(c.T, label+"n")
	var b strings.Builder
	for i := 0; i < n; i++ {
		p := rapid.SampledFrom(pieces).Draw(c.T, label)
		if strings.ContainsAny(p, not) {
			p = "x"
		}
		b.WriteString(p)
	}
	return b.String()
}

func setenv(kv map[string]string) {
	for _, k := range []string{"DB_USERNAME", "DB_PASSWORD", "DB_PROTOCOL", "DB_ADDRESS", "DB_DATABASE", "DB_PARAM_TEXT", "DB_HOST", "DB_PORT", "DB_SEARCH_PATH"} {
		if v, ok := kv[k]; ok {
			os.Setenv(k, v)
		} else {
			os.Unsetenv(k)
		}
	}
}

func special(s string) bool { return strings.ContainsAny(s, "'\\ =@:/?#%\"$()") }

func verify(c *vt.C, s *netfake.Server, err error, env map[string]string, query string) *netfake.Conn {
	conns := s.Take()
	if err == nil {
		c.Fatalf("the run succeeded although the server answers no query")
	}
	if len(conns) != 1 {
		c.Fatalf("%d connections were made; the run ended with: %v", len(conns), err)
	}
	k := conns[0]
	if k.SSL {
		return k
	}
	if k.User != env["DB_USERNAME"] || k.Database != env["DB_DATABASE"] || !k.Password(env["DB_PASSWORD"]) {
		c.Fatalf("connected as %q to database %q (the password is right: %v); the run ended with: %v", k.User, k.Database, k.Password(env["DB_PASSWORD"]), err)
	}
	found := false
	for _, q := range k.Queries {
		found = found || strings.HasSuffix(q, query)
	}
	if !found {
		c.Fatalf("the query was not sent on the connection: %q", k.Queries)
	}
	return k
}

const query = "SELECT name FROM users WHERE id = 1"

func TestMySQL(t *testing.T) {
	tcp := netfake.MySQL("tcp", "127.0.0.1:0")
	sock := tool.Scratch("m.sock")
	long := len(sock) > 100
	var unix *netfake.Server
	if !long {
		unix = netfake.MySQL("unix", sock)
	}
	usual := netfake.TryMySQL("tcp", "127.0.0.1:3306")
	if usual != nil {
		defer usual.Close()
	}
	vt.Check(t, "mysql", 700, func(c *vt.C) {
		env := map[string]string{
			"DB_USERNAME": text(c, "user", 1, 3, ":"),
			"DB_PASSWORD": text(c, "pw", 0, 5, ""),
			"DB_DATABASE": text(c, "db", 1, 3, "/?"),
		}
		s := tcp
		switch rapid.IntRange(0, 4).Draw(c.T, "proto") {
		case 4:
			env["DB_ADDRESS"] = tcp.Addr()
			if usual != nil {
				s = usual
				delete(env, "DB_ADDRESS")
				c.Class("no address")
			}
		case 0, 1:
			env["DB_ADDRESS"] = tcp.Addr()
		case 2:
			env["DB_ADDRESS"] = tcp.Addr()
			env["DB_PROTOCOL"] = "tcp"
		case 3:
			env["DB_ADDRESS"] = tcp.Addr()
			if unix != nil {
				s = unix
				env["DB_PROTOCOL"], env["DB_ADDRESS"] = "unix", sock
				c.Class("unix socket")
			}
		}
		want := ""
		if gen.Chance(c.T, "param", 40) {
			want = "SET sql_mode=ANSI"
			env["DB_PARAM_TEXT"] = rapid.SampledFrom([]string{"sql_mode=ANSI", "sql_mode=ANSI&timeout=9s", "timeout=9s&sql_mode=ANSI&parseTime=true"}).Draw(c.T, "text")
		}
		c.Input("environment: %q", env)
		c.ClassIf(special(env["DB_PASSWORD"]), "special characters in the password")
		c.ClassIf(env["DB_PASSWORD"] == "", "no password")
		if special(env["DB_PASSWORD"] + env["DB_USERNAME"] + env["DB_DATABASE"]) {
			c.NonTrivial(fmt.Sprint(env))
		}
		setenv(env)
		flag.DbFlag.Output = ""
		err := tool.RunCmd(suggest.MySqlCmd, []string{"-q", query})
		k := verify(c, s, err, env, query)
		got := false
		for _, q := range k.Queries {
			got = got || strings.ReplaceAll(q, " = ", "=") == want
		}
		if want != "" && !got {
			c.Fatalf("DB_PARAM_TEXT had no effect: %q", k.Queries)
		}
	})
}

// schemaOf reads a search path of one schema as the server does.
func schemaOf(s string) string {
	s = strings.TrimSpace(s)
	if len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' {
		return strings.ReplaceAll(s[1:len(s)-1], `""`, `"`)
	}
	return strings.ToLower(s)
}

func TestPostgres(t *testing.T) {
	tcp := netfake.Postgres()
	usual := netfake.TryPostgres("tcp", "127.0.0.1:5432")
	if usual != nil {
		defer usual.Close()
	}
	dir := tool.Scratch("pg")
	_ = os.MkdirAll(dir, 0o700)
	unix := netfake.TryPostgres("unix", filepath.Join(dir, ".s.PGSQL.7654"))
	vt.Check(t, "postgres", 900, func(c *vt.C) {
		s := tcp
		env := map[string]string{
			"DB_USERNAME": text(c, "user", 1, 3, ""),
			"DB_PASSWORD": text(c, "pw", 0, 5, ""),
			"DB_DATABASE": text(c, "db", 1, 3, ""),
			"DB_HOST":     rapid.SampledFrom([]string{"127.0.0.1", "localhost"}).Draw(c.T, "host"),
			"DB_PORT":     s.Port(),
		}
		on := "tcp"
		switch rapid.IntRange(0, 7).Draw(c.T, "address") {
		case 0:
			on = "no host"
			delete(env, "DB_HOST")
		case 1:
			if usual != nil {
				on, s = "no port", usual
				delete(env, "DB_PORT")
			}
		case 2:
			if usual != nil {
				on, s = "neither host nor port", usual
				delete(env, "DB_HOST")
				delete(env, "DB_PORT")
			}
		case 3:
			if unix != nil {
				on, s = "unix socket", unix
				env["DB_HOST"], env["DB_PORT"] = dir, "7654"
			}
		}
		c.Class(on)
		s.NoPassword = env["DB_PASSWORD"] == ""
		search := ""
		if gen.Chance(c.T, "search", 40) {
			search = rapid.SampledFrom([]string{"app", "public", "my_schema", "Näme", "App", "a-b", "it's", `q"x`}).Draw(c.T, "schema")
			env["DB_SEARCH_PATH"] = search
		}
		app, ssl := "", false
		if gen.Chance(c.T, "param", 40) {
			switch rapid.IntRange(0, 2).Draw(c.T, "text") {
			case 0:
				app = "gr"
				env["DB_PARAM_TEXT"] = "application_name=gr connect_timeout=9"
			case 1:
				app = "it's"
				env["DB_PARAM_TEXT"] = `connect_timeout=9 application_name='it\'s'`
			case 2:
				if on == "unix socket" {
					break // SSL is not used there
				}
				ssl = true
				env["DB_PARAM_TEXT"] = rapid.SampledFrom([]string{"sslmode=require", "application_name=x sslmode=require connect_timeout=9", "sslmode=verify-full"}).Draw(c.T, "ssl")
			}
		}
		c.Input("environment: %q", env)
		c.ClassIf(special(env["DB_PASSWORD"]), "special characters in the password")
		c.ClassIf(ssl, "SSL")
		c.ClassIf(search != "", "search path")
		if special(env["DB_PASSWORD"]+env["DB_USERNAME"]+env["DB_DATABASE"]) || ssl || search != "" {
			c.NonTrivial(fmt.Sprint(env))
		}
		setenv(env)
		flag.DbFlag.Output = ""
		err := tool.RunCmd(suggest.PostgresCmd, []string{"-q", query})
		k := verify(c, s, err, env, query)
		if k.SSL != ssl {
			c.Fatalf("SSL requested: %v, although DB_PARAM_TEXT says %q", k.SSL, env["DB_PARAM_TEXT"])
		}
		if !ssl && app != "" && k.Params["application_name"] != app {
			c.Fatalf("DB_PARAM_TEXT had no effect: %q", k.Params)
		}
		if !ssl && schemaOf(k.Params["search_path"]) != search {
			c.Fatalf("the connection's search path is %q, DB_SEARCH_PATH is %q", k.Params["search_path"], search)
		}
	})
}

func TestMissing(t *testing.T) {
	my, pg := netfake.MySQL("tcp", "127.0.0.1:0"), netfake.Postgres()
	vt.Check(t, "missing", 60, func(c *vt.C) {
		backend := rapid.SampledFrom([]string{"mysql", "postgres"}).Draw(c.T, "backend")
		host, port, _ := net.SplitHostPort(pg.Addr())
		env := map[string]string{"DB_USERNAME": "u", "DB_PASSWORD": "p", "DB_DATABASE": "d", "DB_ADDRESS": my.Addr(), "DB_HOST": host, "DB_PORT": port}
		k := rapid.SampledFrom([]string{"DB_USERNAME", "DB_DATABASE"}).Draw(c.T, "missing")
		if gen.Chance(c.T, "empty", 50) {
			env[k] = ""
		} else {
			delete(env, k)
		}
		c.Input("%s without %s", backend, k)
		c.NonTrivial(backend + k)
		setenv(env)
		out := tool.Scratch("x.html")
		flag.DbFlag.Output = out
		cmd := suggest.MySqlCmd
		if backend == "postgres" {
			cmd = suggest.PostgresCmd
		}
		err := tool.RunCmd(cmd, []string{"-q", query})
		if err == nil || !strings.Contains(err.Error(), k) {
			c.Fatalf("the run ended with %v", err)
		}
		if n := len(my.Take()) + len(pg.Take()); n != 0 {
			c.Fatalf("%d connections were made", n)
		}
		if _, err := os.Stat(out); err == nil {
			c.Fatalf("a report was written")
		}
	})
}

// A server that cannot be reached, or that refuses the login, makes the run fail without a report.
func TestUnreachable(t *testing.T) {
	vt.Check(t, "unreachable", 150, func(c *vt.C) {
		backend := gen.Pick(c.T, "backend", "mysql", "postgres")
		how := gen.Pick(c.T, "how", "nobody listens", "no socket", "bad parameters", "bad protocol", "hangs up", "nonsense")
		env := map[string]string{"DB_USERNAME": "u", "DB_PASSWORD": "p", "DB_DATABASE": "d", "DB_ADDRESS": "127.0.0.1:1", "DB_HOST": "127.0.0.1", "DB_PORT": "1"}
		switch how {
		case "no socket":
			if backend == "mysql" {
				env["DB_PROTOCOL"], env["DB_ADDRESS"] = "unix", tool.Scratch("none.sock")
			} else {
				env["DB_HOST"] = "/nowhere/at/all"
			}
		case "bad parameters":
			if backend == "mysql" {
				env["DB_PARAM_TEXT"] = gen.Pick(c.T, "param", "timeout=abc", "a=%zz", "loc=Nowhere", "parseTime=perhaps", "tls=nothing", "collation=none")
			} else {
				env["DB_PARAM_TEXT"] = gen.Pick(c.T, "param", "sslmode=what", "connect_timeout=abc", "x", "a='b")
			}
		case "bad protocol":
			env["DB_PROTOCOL"] = gen.Pick(c.T, "protocol", "pigeon", "tcp(x", "smoke")
		case "hangs up", "nonsense":
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				c.Skip(err.Error())
			}
			defer l.Close()
			go func() {
				for {
					k, err := l.Accept()
					if err != nil {
						return
					}
					if how == "nonsense" {
						_, _ = k.Write([]byte("X\x00\x00\x00\x04\x00"))
					}
					k.Close()
				}
			}()
			env["DB_ADDRESS"] = l.Addr().String()
			_, env["DB_PORT"], _ = net.SplitHostPort(l.Addr().String())
		}
		c.Input("%s: %s %q", backend, how, env)
		setenv(env)
		out := tool.Scratch("x.html")
		flag.DbFlag.Output = out
		if gen.Chance(c.T, "no report asked for", 30) {
			flag.DbFlag.Output = ""
		}
		cmd := suggest.MySqlCmd
		if backend == "postgres" {
			cmd = suggest.PostgresCmd
		}
		if err := tool.RunCmd(cmd, []string{"-q", query}); err == nil {
			c.Fatalf("the run succeeded")
		}
		if _, err := os.Stat(out); err == nil {
			os.Remove(out)
			c.Fatalf("a report was written")
		}
		c.NonTrivial(backend + how + env["DB_PARAM_TEXT"])
		c.Class(backend + ": " + how)
	})
}
