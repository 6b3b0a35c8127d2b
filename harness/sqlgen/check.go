package sqlgen

import (
	"fmt"
	"os"
	"strings"

	"verif/harness/fakedb"
	"verif/harness/tool"
)

// Suggest runs one suggestion end to end and returns the candidates in the report.
func Suggest(backend string, cat *fakedb.Catalog, sql string) (targets []string, srv *fakedb.Server, err error) {
	return SuggestIn(backend, tool.Schema(backend), cat, sql)
}

// SuggestIn is Suggest on a connection whose schema (or MySQL database) is another one than the usual.
func SuggestIn(backend, schema string, cat *fakedb.Catalog, sql string) (targets []string, srv *fakedb.Server, err error) {
	srv = tool.NewServer(backend, cat)
	srv.Schema = schema
	defer srv.Close()
	srv.SQL = sql
	out := tool.Scratch("s.html")
	defer os.Remove(out)
	q := sql
	if backend == "hasura" {
		q = "query { x { id } }"
	}
	err = tool.Run(srv, tool.Suggest{Backend: backend, Query: q, Output: out})
	if err != nil {
		return nil, srv, err
	}
	page, err := tool.ReadReport(out)
	if err != nil {
		return nil, srv, fmt.Errorf("report: %w", err)
	}
	rep, err := page.Decode()
	if err != nil {
		return nil, srv, fmt.Errorf("report: %w", err)
	}
	sr, err := rep.SuggestOf(backend)
	if err != nil {
		return nil, srv, err
	}
	return sr.Targets(), srv, nil
}

// Diff explains the first difference between two candidate lists ("" when equal).
func Diff(got, want []string) string {
	g, w := map[string]int{}, map[string]int{}
	for _, x := range got {
		g[x]++
	}
	for _, x := range want {
		w[x]++
	}
	var miss, extra []string
	for _, x := range want {
		if g[x] < w[x] {
			miss = append(miss, x)
		}
	}
	for _, x := range got {
		if w[x] < g[x] {
			extra = append(extra, x)
		}
	}
	if len(miss)+len(extra) > 0 {
		return fmt.Sprintf("missing candidates: %s\nunwanted candidates: %s", short(miss), short(extra))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("position %d holds %s, want %s", i, got[i], want[i])
		}
	}
	return ""
}

func short(x []string) string {
	if len(x) > 12 {
		return fmt.Sprintf("%s ... (%d)", strings.Join(x[:12], "  "), len(x))
	}
	return strings.Join(x, "  ")
}
