// Package tool runs GravityR's commands in-process against simulated servers and reads back the reports.
package tool

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync/atomic"
	"unicode/utf8"

	"github.com/mrasu/GravityR/cmd/app/dig"
	"github.com/mrasu/GravityR/cmd/db/suggest"
	hcmd "github.com/mrasu/GravityR/cmd/db/suggest/hasura"
	"github.com/mrasu/GravityR/cmd/flag"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/infra/postgres"
	"github.com/mrasu/GravityR/thelper"
	"github.com/spf13/cobra"
	"github.com/spf13/pflag"

	"verif/harness/fakedb"
)

func init() { thelper.InjectClientDist() }

var Backends = []string{"mysql", "postgres", "hasura"}

func Dialect(backend string) string {
	if backend == "mysql" {
		return "mysql"
	}
	return "postgres"
}

// Schema the backend's tables live in.
func Schema(backend string) string {
	if backend == "mysql" {
		return "appdb"
	}
	return "public"
}

var MysqlExplain = []string{
	"-> Filter: (t.a = 1)  (cost=1.5 rows=10) (actual time=0.1..0.5 rows=3 loops=1)",
	"    -> Table scan on t  (cost=1.5 rows=10) (actual time=0.1..0.4 rows=10 loops=1)",
	"",
}

var PgExplain = []string{
	"Seq Scan on t  (cost=0.00..25.88 rows=6 width=36) (actual time=0.010..0.012 rows=1 loops=1)",
	"  Filter: (a = 1)",
	"Planning Time: 0.1 ms",
	"Execution Time: 0.2 ms",
}

func NewServer(backend string, cat *fakedb.Catalog) *fakedb.Server {
	s := fakedb.NewServer(Dialect(backend), Schema(backend), cat)
	if backend == "mysql" {
		s.Explain = MysqlExplain
	} else {
		s.Explain = PgExplain
	}
	return s
}

type Suggest struct {
	Backend string
	Query   string // SQL, or GraphQL for hasura
	Examine bool
	Indexes []string
	Output  string
	Vars    string // hasura --json-variables
	Secret  string // hasura admin secret (default s3cret)
}

var seq int64

// Scratch returns a fresh path in the run's scratch directory.
func Scratch(name string) string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	return filepath.Join(d, fmt.Sprintf("%d_%s", atomic.AddInt64(&seq, 1), name))
}

// Run performs one "gr db suggest" run against s.
func Run(s *fakedb.Server, r Suggest) error {
	switch r.Backend {
	case "mysql":
		db := s.SQLX()
		defer db.Close()
		return suggest.VerifMysqlSuggest(r.Output, r.Query, r.Examine, r.Indexes, mysql.NewDB(db), s.Schema)
	case "postgres":
		db := s.SQLX()
		defer db.Close()
		return suggest.VerifPostgresSuggest(r.Output, r.Query, r.Examine, r.Indexes, postgres.NewDB(db), s.Schema)
	case "hasura":
		os.Setenv("HASURA_URL", s.URL().String())
		os.Setenv("HASURA_ADMIN_SECRET", "s3cret")
		if r.Secret != "" {
			os.Setenv("HASURA_ADMIN_SECRET", r.Secret)
		}
		flag.DbFlag.Output = r.Output
		args := []string{"--query=" + r.Query, fmt.Sprintf("--with-examine=%v", r.Examine)}
		for _, i := range r.Indexes {
			args = append(args, "--index="+i)
		}
		v := r.Vars
		if v == "" {
			v = "{}"
		}
		args = append(args, "--json-variables="+v)
		return RunCmd(hcmd.PostgresCmd, args)
	}
	panic("backend " + r.Backend)
}

// RunCmd resets a command's flags, parses args and runs it.
func RunCmd(c *cobra.Command, args []string) error {
	inherited := c.InheritedFlags()
	c.Flags().VisitAll(func(f *pflag.Flag) {
		if inherited.Lookup(f.Name) != nil {
			return
		}
		if sv, ok := f.Value.(pflag.SliceValue); ok {
			_ = sv.Replace(nil)
		} else {
			_ = f.Value.Set(f.DefValue)
		}
		f.Changed = false
	})
	if err := c.ParseFlags(args); err != nil {
		return err
	}
	return c.RunE(c, nil)
}

// JaegerDig performs one "gr app dig jaeger" run.
func JaegerDig(output, uiURL, grpcAddr string, args []string) error {
	os.Setenv("JAEGER_UI_URL", uiURL)
	os.Setenv("JAEGER_GRPC_ADDRESS", grpcAddr)
	flag.AppFlag.Output = output
	return RunCmd(dig.JaegerCmd, args)
}

var paramReg = regexp.MustCompile(`window\.grParam\s*=\s*`)

// Page is a report as a browser sees it.
type Page struct {
	Scripts []string // raw text of each <script> element
	Styles  []string
	Param   json.RawMessage
}

// ParseHTML splits a page the way an HTML tokenizer does (raw text elements end at their close tag).
func ParseHTML(b []byte) (*Page, error) {
	p := &Page{}
	rest := string(b)
	if !utf8.ValidString(rest) {
		return nil, fmt.Errorf("the page is not valid UTF-8")
	}
	if strings.ContainsRune(rest, 0) {
		return nil, fmt.Errorf("the page contains a NUL character")
	}
	for {
		i := strings.Index(rest, "<")
		if i < 0 {
			break
		}
		rest = rest[i:]
		low := strings.ToLower(rest)
		switch {
		case strings.HasPrefix(low, "<script"):
			j := strings.Index(rest, ">")
			if j < 0 {
				return nil, fmt.Errorf("unterminated script tag")
			}
			rest = rest[j+1:]
			txt, r, err := scriptText(rest)
			if err != nil {
				return nil, err
			}
			p.Scripts = append(p.Scripts, txt)
			rest = r
		case strings.HasPrefix(low, "<style"):
			j := strings.Index(rest, ">")
			rest = rest[j+1:]
			k := strings.Index(strings.ToLower(rest), "</style")
			if k < 0 {
				return nil, fmt.Errorf("unterminated style element")
			}
			p.Styles = append(p.Styles, rest[:k])
			rest = rest[k+7:]
		default:
			rest = rest[1:]
		}
	}
	n := 0
	for _, s := range p.Scripts {
		loc := paramReg.FindStringIndex(s)
		if loc == nil {
			continue
		}
		n++
		dec := json.NewDecoder(strings.NewReader(s[loc[1]:]))
		if err := dec.Decode(&p.Param); err != nil {
			return nil, fmt.Errorf("embedded data is not a value a browser can read: %w", err)
		}
		off := int(dec.InputOffset())
		tail := strings.TrimSpace(s[loc[1]+off:])
		if tail != "" && tail != ";" {
			return nil, fmt.Errorf("unexpected text after the embedded data: %.80q", tail)
		}
		if bytes.ContainsAny(p.Param, "\u2028\u2029") {
			return nil, fmt.Errorf("raw line separator inside the script")
		}
	}
	if n != 1 {
		return nil, fmt.Errorf("the page holds %d data blocks, want 1", n)
	}
	return p, nil
}

// scriptText implements the "script data (double) escaped" states closely enough: a "<!--" followed by
// "<script" keeps a later "</script" from closing the element.
func scriptText(s string) (string, string, error) {
	low := strings.ToLower(s)
	escaped, double := false, false
	for i := 0; i < len(s); i++ {
		switch {
		case !escaped && strings.HasPrefix(low[i:], "<!--"):
			escaped = true
			i += 3
		case escaped && strings.HasPrefix(low[i:], "-->"):
			escaped, double = false, false
		case escaped && !double && strings.HasPrefix(low[i:], "<script"):
			double = true
		case strings.HasPrefix(low[i:], "</script"):
			if double {
				double = false
				continue
			}
			return s[:i], s[i+8:], nil
		}
	}
	return "", "", fmt.Errorf("unterminated script element")
}

// ReadReport parses the report at path.
func ReadReport(path string) (*Page, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return ParseHTML(b)
}

// Report mirrors what the browser side reads from a page.
type Report struct {
	SuggestData *struct {
		MySQL    *SuggestReport `json:"mysql"`
		Postgres *SuggestReport `json:"postgres"`
		Hasura   *struct {
			Postgres *SuggestReport `json:"postgres"`
		} `json:"hasura"`
	} `json:"suggestData"`
	DigData *struct {
		PerformanceInsights *struct {
			SqlDbLoads          []TimeDbLoad `json:"sqlDbLoads"`
			TokenizedSqlDbLoads []TimeDbLoad `json:"tokenizedSqlDbLoads"`
		} `json:"performanceInsights"`
		Jaeger *JaegerReport `json:"jaeger"`
	} `json:"digData"`
}

type IndexTarget struct {
	TableName string `json:"tableName"`
	Columns   []struct {
		Name string `json:"name"`
	} `json:"columns"`
}

func (t IndexTarget) String() string {
	var c []string
	for _, x := range t.Columns {
		c = append(c, x.Name)
	}
	return t.TableName + ":" + strings.Join(c, "+")
}

type SuggestReport struct {
	Query        string            `json:"query"`
	Gql          string            `json:"gql"`
	GqlVariables json.RawMessage   `json:"gqlVariables"`
	AnalyzeNodes []json.RawMessage `json:"analyzeNodes"`
	SummaryText  string            `json:"summaryText"`
	IndexTargets []IndexTarget     `json:"indexTargets"`
	Options      []struct {
		IsShort bool   `json:"isShort"`
		Name    string `json:"name"`
		Value   string `json:"value"`
	} `json:"examinationCommandOptions"`
	Examination *struct {
		OriginalTimeMillis int64 `json:"originalTimeMillis"`
		IndexResults       []struct {
			ExecutionTimeMillis int64       `json:"executionTimeMillis"`
			IndexTarget         IndexTarget `json:"indexTarget"`
		} `json:"indexResults"`
	} `json:"examinationResult"`
}

func (r *SuggestReport) Targets() []string {
	var o []string
	for _, t := range r.IndexTargets {
		o = append(o, t.String())
	}
	return o
}

type TimeDbLoad struct {
	Timestamp float64 `json:"timestamp"`
	Databases []struct {
		Name string `json:"name"`
		Sqls []struct {
			SQL         string  `json:"sql"`
			LoadMax     float64 `json:"loadMax"`
			LoadSum     float64 `json:"loadSum"`
			TokenizedID string  `json:"tokenizedId"`
		} `json:"sqls"`
	} `json:"databases"`
}

type JaegerReport struct {
	UIPath               string  `json:"uiPath"`
	SlowThresholdMilli   int     `json:"slowThresholdMilli"`
	SameServiceThreshold int     `json:"sameServiceThreshold"`
	SlowTraces           []Trace `json:"slowTraces"`
	SameServiceTraces    []Trace `json:"sameServiceTraces"`
}

type Trace struct {
	TraceID                  string `json:"traceId"`
	SameServiceAccessCount   int    `json:"sameServiceAccessCount"`
	TimeConsumingServiceName string `json:"timeConsumingServiceName"`
	Root                     *Span  `json:"root"`
}

type Span struct {
	Name            string  `json:"name"`
	SpanID          string  `json:"spanId"`
	StartTimeMillis float64 `json:"startTimeMillis"`
	EndTimeMillis   float64 `json:"endTimeMillis"`
	ServiceName     string  `json:"serviceName"`
	Children        []*Span `json:"children"`
}

// Decode reads a page's data block.
func (p *Page) Decode() (*Report, error) {
	r := &Report{}
	if err := json.Unmarshal(p.Param, r); err != nil {
		return nil, err
	}
	return r, nil
}

// SuggestOf returns the section of the backend, requiring it to be the only one present.
func (r *Report) SuggestOf(backend string) (*SuggestReport, error) {
	if r.SuggestData == nil || r.DigData != nil {
		return nil, fmt.Errorf("the report does not consist of suggest data")
	}
	var have []string
	var s *SuggestReport
	if r.SuggestData.MySQL != nil {
		have, s = append(have, "mysql"), r.SuggestData.MySQL
	}
	if r.SuggestData.Postgres != nil {
		have, s = append(have, "postgres"), r.SuggestData.Postgres
	}
	if r.SuggestData.Hasura != nil {
		have, s = append(have, "hasura"), r.SuggestData.Hasura.Postgres
	}
	if len(have) != 1 || have[0] != backend || s == nil {
		return nil, fmt.Errorf("the report holds the sections %v, want only %s", have, backend)
	}
	return s, nil
}
