package fakedb

import (
	"bytes"
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"time"

	pparser "github.com/auxten/postgresql-parser/pkg/sql/parser"
	"github.com/auxten/postgresql-parser/pkg/sql/sem/tree"
	"github.com/jmoiron/sqlx"
	tparser "github.com/pingcap/tidb/parser"
	tast "github.com/pingcap/tidb/parser/ast"
	_ "github.com/pingcap/tidb/types/parser_driver"
)

// Stmt is one statement (or request) the simulated server received.
type Stmt struct {
	Kind    string // explain, catalog, run, create, drop, other
	SQL     string
	Table   string
	Index   string
	Columns []string
	Failed  bool
	Extra   []string // indexes present beyond the initial ones when it arrived: "table:name(cols)"

	Begin, End time.Time // arrival and completion on the server

	// Hasura only
	Path      string
	Header    http.Header
	Body      map[string]interface{}
	ReadOnly  bool
	Variables interface{}
}

// HTTPFault makes the simulated Hasura answer in a failing way.
type HTTPFault struct {
	Status  int
	Body    string
	Drop    bool // close the connection without an answer
	Partial bool // 200, but cut the body short
}

func (h *HTTPFault) Error() string { return fmt.Sprintf("http fault %d", h.Status) }

// RowFault makes a statement of a database/sql connection fail after some of its rows were delivered.
type RowFault struct{ After int }

func (r *RowFault) Error() string { return "connection lost while reading rows" }

type Server struct {
	rowFault *RowFault
	Dialect string // mysql | postgres
	Schema  string
	Cat     *Catalog
	Initial []string
	Explain []string
	// Fault is asked before a statement takes effect; an error makes it fail without effect.
	Fault func(s *Stmt) error
	// Delay is slept while a statement executes.
	Delay func(s *Stmt) time.Duration

	mu      sync.Mutex
	Log     []*Stmt
	Harness error // set when the simulation met something it cannot judge

	// Hasura
	SQL       string // the SQL the GraphQL query compiles to
	ExplainN  int    // number of entries in the explain answer (default 1)
	http      *httptest.Server
	RawAnswer func(s *Stmt) (string, bool)
}

func NewServer(dialect, schema string, cat *Catalog) *Server {
	return &Server{Dialect: dialect, Schema: schema, Cat: cat, Initial: cat.IndexSnapshot()}
}

func (s *Server) extra() []string {
	init := map[string]bool{}
	for _, i := range s.Initial {
		init[i] = true
	}
	var r []string
	for _, i := range s.Cat.IndexSnapshot() {
		if !init[i] {
			r = append(r, i)
		}
	}
	return r
}

func (s *Server) fail(st *Stmt, err error) error {
	st.Failed = true
	var h *ErrHarness
	if errors.As(err, &h) && s.Harness == nil {
		s.Harness = h
	}
	return err
}

// Handle executes one statement.
func (s *Server) Handle(q string, args []interface{}) (cols []string, rows [][]interface{}, err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.handle(&Stmt{SQL: q}, args)
}

func (s *Server) sleep(st *Stmt) {
	if s.Delay != nil {
		if d := s.Delay(st); d > 0 {
			time.Sleep(d)
		}
	}
}

func (s *Server) handle(st *Stmt, args []interface{}) ([]string, [][]interface{}, error) {
	st.Begin = time.Now()
	defer func() { st.End = time.Now() }()
	st.Extra = s.extra()
	apply, err := s.classify(st)
	s.Log = append(s.Log, st)
	if err != nil {
		return nil, nil, s.fail(st, err)
	}
	if s.Fault != nil {
		if err := s.Fault(st); err != nil {
			if rf := (*RowFault)(nil); errors.As(err, &rf) {
				st.Failed = true
				s.rowFault = rf
			} else {
				return nil, nil, s.fail(st, err)
			}
		}
	}
	s.sleep(st)
	switch st.Kind {
	case "explain":
		var rows [][]interface{}
		if s.Dialect == "mysql" {
			rows = [][]interface{}{{strings.Join(s.Explain, "\n")}}
			return []string{"EXPLAIN"}, rows, nil
		}
		for _, l := range s.Explain {
			rows = append(rows, []interface{}{l})
		}
		return []string{"QUERY PLAN"}, rows, nil
	case "catalog":
		cols, rows, err := s.Cat.CatalogQuery(st.SQL, args, s.Dialect == "mysql")
		if err != nil {
			return nil, nil, s.fail(st, err)
		}
		return cols, rows, nil
	case "run":
		return []string{"x"}, [][]interface{}{}, nil
	}
	if st.ReadOnly {
		return nil, nil, s.fail(st, errors.New("cannot execute this statement in a read-only transaction"))
	}
	if apply != nil {
		if err := apply(); err != nil {
			return nil, nil, s.fail(st, err)
		}
	}
	return nil, nil, nil
}

var tp = tparser.New()

func (s *Server) classify(st *Stmt) (func() error, error) {
	t := strings.TrimSpace(st.SQL)
	l := strings.ToLower(t)
	if strings.HasPrefix(l, "explain") {
		st.Kind = "explain"
		return nil, nil
	}
	if strings.HasPrefix(l, "select") && (strings.Contains(l, "information_schema") || strings.Contains(l, "pg_class") || strings.Contains(l, "pg_index") || strings.Contains(l, "pg_catalog")) {
		st.Kind = "catalog"
		return nil, nil
	}
	st.Kind = "run"
	word := l
	if i := strings.IndexAny(l, " \t\n("); i > 0 {
		word = l[:i]
	}
	if word != "alter" && word != "create" && word != "drop" {
		return nil, nil
	}
	st.Kind = "other"
	if s.Dialect == "mysql" {
		return s.mysqlDDL(st)
	}
	return s.pgDDL(st)
}

func (s *Server) mysqlDDL(st *Stmt) (func() error, error) {
	nodes, _, err := tp.Parse(st.SQL, "", "")
	if err != nil {
		return nil, errors.New("You have an error in your SQL syntax: " + err.Error())
	}
	if len(nodes) != 1 {
		return nil, errors.New("multiple statements are not allowed")
	}
	var table, index string
	var cols []string
	kind := ""
	colsOf := func(ks []*tast.IndexPartSpecification) bool {
		for _, k := range ks {
			if k.Column == nil || k.Length > 0 {
				return false
			}
			cols = append(cols, k.Column.Name.O)
		}
		return true
	}
	switch n := nodes[0].(type) {
	case *tast.AlterTableStmt:
		table = n.Table.Name.O
		if len(n.Specs) != 1 {
			return nil, nil
		}
		switch sp := n.Specs[0]; sp.Tp {
		case tast.AlterTableAddConstraint:
			if sp.Constraint.Tp != tast.ConstraintIndex && sp.Constraint.Tp != tast.ConstraintKey {
				return nil, nil
			}
			kind, index = "create", sp.Constraint.Name
			if !colsOf(sp.Constraint.Keys) {
				return nil, nil
			}
		case tast.AlterTableDropIndex:
			kind, index = "drop", sp.Name
		}
	case *tast.CreateIndexStmt:
		kind, table, index = "create", n.Table.Name.O, n.IndexName
		if n.KeyType != tast.IndexKeyTypeNone || !colsOf(n.IndexPartSpecifications) {
			return nil, nil
		}
	case *tast.DropIndexStmt:
		kind, table, index = "drop", n.Table.Name.O, n.IndexName
	}
	if kind == "" {
		return nil, nil
	}
	st.Kind, st.Table, st.Index, st.Columns = kind, table, index, cols
	return func() error {
		t := s.Cat.Find(s.Schema, table)
		if t == nil {
			return fmt.Errorf("Error 1146: Table '%s.%s' doesn't exist", s.Schema, table)
		}
		return s.apply(kind, t, index, cols, true)
	}, nil
}

func (s *Server) pgDDL(st *Stmt) (func() error, error) {
	stmts, err := pparser.Parse(st.SQL)
	if err != nil {
		return nil, errors.New("pq: syntax error: " + err.Error())
	}
	if len(stmts) != 1 {
		return nil, nil
	}
	switch n := stmts[0].AST.(type) {
	case *tree.CreateIndex:
		st.Kind, st.Table, st.Index = "create", string(n.Table.TableName), string(n.Name)
		for _, c := range n.Columns {
			st.Columns = append(st.Columns, string(c.Column))
		}
		if n.Unique || n.Inverted || len(n.Storing) > 0 || n.PartitionBy != nil {
			st.Kind = "other"
			return nil, nil
		}
		table, index, cols := st.Table, st.Index, st.Columns
		return func() error {
			t := s.Cat.Find(s.Schema, table)
			if t == nil {
				return fmt.Errorf("pq: relation %q does not exist", table)
			}
			for _, o := range s.Cat.Tables {
				if o.Schema == s.Schema {
					for _, ix := range o.Indexes {
						if ix.Name == index {
							return fmt.Errorf("pq: relation %q already exists", index)
						}
					}
				}
			}
			return s.apply("create", t, index, cols, false)
		}, nil
	case *tree.DropIndex:
		if len(n.IndexList) != 1 {
			return nil, nil
		}
		st.Kind, st.Index = "drop", string(n.IndexList[0].Index)
		index := st.Index
		for _, t := range s.Cat.Tables {
			if t.Schema != s.Schema {
				continue
			}
			for _, ix := range t.Indexes {
				if ix.Name == index {
					t := t
					st.Table, st.Columns = t.Name, ix.Columns
					return func() error { return s.apply("drop", t, index, nil, false) }, nil
				}
			}
		}
		return nil, fmt.Errorf("pq: index %q does not exist", index)
	}
	return nil, nil
}

func (s *Server) apply(kind string, t *Table, index string, cols []string, fold bool) error {
	eq := func(a, b string) bool { return a == b || fold && strings.EqualFold(a, b) }
	if kind == "create" {
		if index == "" {
			return errors.New("index without a name")
		}
		if len(index) > 64 {
			return fmt.Errorf("Identifier name '%s' is too long", index)
		}
		for _, ix := range t.Indexes {
			if eq(ix.Name, index) {
				return fmt.Errorf("Duplicate key name '%s'", index)
			}
		}
		for i, c := range cols {
			if !t.Has(c, fold) {
				return fmt.Errorf("column %q does not exist", c)
			}
			for _, o := range cols[:i] {
				if eq(o, c) && fold {
					return fmt.Errorf("Duplicate column name '%s'", c)
				}
			}
		}
		t.Indexes = append(t.Indexes, Index{Name: index, Columns: append([]string(nil), cols...)})
		return nil
	}
	for i, ix := range t.Indexes {
		if eq(ix.Name, index) {
			t.Indexes = append(append([]Index(nil), t.Indexes[:i]...), t.Indexes[i+1:]...)
			return nil
		}
	}
	return fmt.Errorf("Can't DROP '%s'; check that column/key exists", index)
}

// ---- database/sql ----

type connector struct{ s *Server }

func (c connector) Connect(context.Context) (driver.Conn, error) { return &conn{c.s}, nil }
func (c connector) Driver() driver.Driver                        { return nil }

type conn struct{ s *Server }

func (c *conn) Prepare(q string) (driver.Stmt, error) { return &pstmt{c.s, q}, nil }
func (c *conn) Close() error                          { return nil }
func (c *conn) Begin() (driver.Tx, error)             { return tx{}, nil }

type tx struct{}

func (tx) Commit() error   { return nil }
func (tx) Rollback() error { return nil }

type pstmt struct {
	s *Server
	q string
}

func (p *pstmt) Close() error  { return nil }
func (p *pstmt) NumInput() int { return -1 }
func (p *pstmt) Exec(args []driver.Value) (driver.Result, error) {
	_, _, err := p.s.Handle(p.q, toArgs(args))
	if err != nil {
		return nil, err
	}
	return driver.RowsAffected(0), nil
}
func (p *pstmt) Query(args []driver.Value) (driver.Rows, error) {
	cols, rows, err := p.s.Handle(p.q, toArgs(args))
	rf := p.s.rowFault
	p.s.rowFault = nil
	if err != nil {
		return nil, err
	}
	r := &drows{cols: cols, rows: rows}
	if rf != nil {
		r.end = rf
		r.rows = rows[:min(rf.After, len(rows))]
	}
	return r, nil
}

func toArgs(args []driver.Value) []interface{} {
	var r []interface{}
	for _, a := range args {
		r = append(r, a)
	}
	return r
}

type drows struct {
	cols []string
	rows [][]interface{}
	end  error
}

func (r *drows) Columns() []string { return r.cols }
func (r *drows) Close() error      { return nil }
func (r *drows) Next(dest []driver.Value) error {
	if len(r.rows) == 0 {
		if r.end != nil {
			return r.end
		}
		return io.EOF
	}
	for i, v := range r.rows[0] {
		switch x := v.(type) {
		case []string:
			dest[i] = []byte(TextArray(x))
		case string:
			dest[i] = []byte(x)
		default:
			dest[i] = v
		}
	}
	r.rows = r.rows[1:]
	return nil
}

// SQLX opens a database/sql handle on the simulated server.
func (s *Server) SQLX() *sqlx.DB { return sqlx.NewDb(sql.OpenDB(connector{s}), s.Dialect) }

// ---- Hasura ----

// URL starts the HTTP side and returns its base URL.
func (s *Server) URL() *url.URL {
	if s.http == nil {
		s.http = httptest.NewServer(http.HandlerFunc(s.Serve))
	}
	u, _ := url.Parse(s.http.URL)
	return u
}

func (s *Server) Close() {
	if s.http != nil {
		s.http.Close()
		s.http = nil
	}
}

// Serve answers one request to Hasura.
func (s *Server) Serve(w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	raw, _ := io.ReadAll(r.Body)
	st := &Stmt{Path: r.URL.Path, Header: r.Header.Clone(), Begin: time.Now()}
	defer func() {
		if st.End.IsZero() {
			st.End = time.Now()
		}
	}()
	answer := func(v interface{}) {
		if s.RawAnswer != nil {
			if t, ok := s.RawAnswer(st); ok {
				_, _ = io.WriteString(w, t)
				return
			}
		}
		_ = json.NewEncoder(w).Encode(v)
	}
	failWith := func(err error) {
		var f *HTTPFault
		if !errors.As(err, &f) {
			f = &HTTPFault{Status: 400, Body: fmt.Sprintf(`{"error":%q,"code":"postgres-error"}`, err.Error())}
			if st.Path == "/v1/graphql" {
				f = &HTTPFault{Status: 200, Body: fmt.Sprintf(`{"errors":[{"message":%q}]}`, err.Error())}
			}
		}
		switch {
		case f.Drop:
			if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
				c.Close()
			}
		case f.Partial:
			w.Header().Set("Content-Length", fmt.Sprint(len(f.Body)+64))
			w.WriteHeader(200)
			_, _ = io.WriteString(w, f.Body)
		default:
			w.WriteHeader(f.Status)
			_, _ = io.WriteString(w, f.Body)
		}
	}
	if err := decode(raw, &st.Body); err != nil || r.Method != "POST" {
		st.Kind = "other"
		s.Log = append(s.Log, st)
		w.WriteHeader(400)
		return
	}
	switch r.URL.Path {
	case "/v1/graphql/explain":
		st.Kind = "explain"
		if q, ok := st.Body["query"].(map[string]interface{}); ok {
			st.SQL, _ = q["query"].(string)
			st.Variables = q["variables"]
		}
		st.Extra = s.extra()
		s.Log = append(s.Log, st)
		if s.Fault != nil {
			if err := s.Fault(st); err != nil {
				failWith(s.fail(st, err))
				return
			}
		}
		n := s.ExplainN
		if n == 0 {
			n = 1
		}
		if n < 0 {
			n = 0
		}
		res := []interface{}{}
		for i := 0; i < n; i++ {
			res = append(res, map[string]interface{}{"field": "f", "plan": s.Explain, "sql": s.SQL})
		}
		answer(res)
	case "/v1/graphql":
		st.Kind = "run"
		st.SQL, _ = st.Body["query"].(string)
		st.Variables = st.Body["variables"]
		st.Extra = s.extra()
		s.Log = append(s.Log, st)
		if s.Fault != nil {
			if err := s.Fault(st); err != nil {
				failWith(s.fail(st, err))
				return
			}
		}
		s.sleep(st)
		st.End = time.Now()
		answer(map[string]interface{}{"data": map[string]interface{}{"x": []int{}}})
	case "/v2/query":
		args, _ := st.Body["args"].(map[string]interface{})
		st.SQL, _ = args["sql"].(string)
		st.ReadOnly, _ = args["read_only"].(bool)
		if st.Body["type"] != "run_sql" {
			st.Kind = "other"
			s.Log = append(s.Log, st)
			w.WriteHeader(400)
			return
		}
		cols, rows, err := s.handle(st, nil)
		if err != nil {
			failWith(err)
			return
		}
		if cols == nil {
			answer(map[string]interface{}{"result_type": "CommandOk", "result": nil})
			return
		}
		res := [][]string{cols}
		for _, r := range rows {
			var o []string
			for _, v := range r {
				switch x := v.(type) {
				case string:
					o = append(o, x)
				case bool:
					if x {
						o = append(o, "t")
					} else {
						o = append(o, "f")
					}
				case []string:
					o = append(o, TextArray(x))
				case nil:
					o = append(o, "NULL")
				default:
					o = append(o, fmt.Sprint(x))
				}
			}
			res = append(res, o)
		}
		answer(map[string]interface{}{"result_type": "TuplesOk", "result": res})
	default:
		st.Kind = "other"
		s.Log = append(s.Log, st)
		w.WriteHeader(404)
	}
}

// decode reads a JSON object; numbers a float64 cannot hold stay json.Number.
func decode(raw []byte, body *map[string]interface{}) error {
	d := json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	if err := d.Decode(body); err != nil {
		return err
	}
	if _, err := d.Token(); err != io.EOF {
		return errors.New("text after the object")
	}
	for k, v := range *body {
		(*body)[k] = floats(v)
	}
	return nil
}

func floats(v interface{}) interface{} {
	switch x := v.(type) {
	case json.Number:
		if f, err := x.Float64(); err == nil {
			return f
		}
	case map[string]interface{}:
		for k, e := range x {
			x[k] = floats(e)
		}
	case []interface{}:
		for i, e := range x {
			x[i] = floats(e)
		}
	}
	return v
}
