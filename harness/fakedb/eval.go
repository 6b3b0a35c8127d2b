package fakedb

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/auxten/postgresql-parser/pkg/sql/parser"
	"github.com/auxten/postgresql-parser/pkg/sql/sem/tree"
)

// ErrHarness marks a statement the simulation cannot judge; the check then ends with an error, not a verdict.
type ErrHarness struct{ Msg string }

func (e *ErrHarness) Error() string { return "fakedb: " + e.Msg }

func unsupported(format string, a ...interface{}) { panic(&ErrHarness{fmt.Sprintf(format, a...)}) }

type binding struct {
	name string
	cols []string
	vals row
}

type scope struct {
	parent *scope
	binds  []binding
}

type evaluator struct {
	cat   *Catalog
	mysql bool
	args  []interface{}
}

// CatalogQuery evaluates a catalogue SELECT: column names and rows.
func (c *Catalog) CatalogQuery(sql string, args []interface{}, mysql bool) (cols []string, rows [][]interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(*ErrHarness); ok {
				err = h
				return
			}
			if e, ok := r.(sqlError); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	text := sql
	if mysql {
		var sb strings.Builder
		n := 0
		for _, ch := range text {
			switch ch {
			case '?':
				n++
				fmt.Fprintf(&sb, "$%d", n)
			case '`':
				sb.WriteByte('"')
			default:
				sb.WriteRune(ch)
			}
		}
		text = sb.String()
		if n != len(args) {
			return nil, nil, sqlError(fmt.Sprintf("expected %d arguments, got %d", n, len(args)))
		}
	}
	stmts, perr := parser.Parse(text)
	if perr != nil {
		return nil, nil, sqlError("syntax error: " + perr.Error())
	}
	if len(stmts) != 1 {
		return nil, nil, sqlError("expected one statement")
	}
	sel, ok := stmts[0].AST.(*tree.Select)
	if !ok {
		return nil, nil, &ErrHarness{"not a SELECT: " + sql}
	}
	ev := &evaluator{cat: c, mysql: mysql, args: args}
	cols, rows = ev.sel(sel, nil)
	return cols, rows, nil
}

type sqlError string

func (e sqlError) Error() string { return string(e) }

func (ev *evaluator) sel(s *tree.Select, outer *scope) ([]string, [][]interface{}) {
	if s.With != nil {
		unsupported("WITH in catalogue query")
	}
	if p, ok := s.Select.(*tree.ParenSelect); ok {
		return ev.sel(p.Select, outer)
	}
	sc, ok := s.Select.(*tree.SelectClause)
	if !ok {
		unsupported("select form %T", s.Select)
	}
	if len(sc.GroupBy) > 0 || sc.Having != nil || len(sc.Window) > 0 || len(sc.DistinctOn) > 0 {
		unsupported("GROUP BY/HAVING/WINDOW in catalogue query")
	}
	scopes := []*scope{{parent: outer}}
	for _, te := range sc.From.Tables {
		scopes = ev.product(scopes, te)
	}
	var kept []*scope
	for _, sp := range scopes {
		if sc.Where == nil || truthy(ev.expr(sc.Where.Expr, sp)) {
			kept = append(kept, sp)
		}
	}
	var names []string
	star := false
	for _, e := range sc.Exprs {
		switch n := e.Expr.(type) {
		case tree.UnqualifiedStar:
			star = true
		case *tree.UnresolvedName:
			if n.Star {
				star = true
			}
			if e.As != "" {
				names = append(names, string(e.As))
			} else {
				names = append(names, n.Parts[0])
			}
		default:
			if e.As != "" {
				names = append(names, string(e.As))
			} else {
				names = append(names, "?column?")
			}
		}
	}
	if star {
		unsupported("star in catalogue query")
	}
	if ev.mysql {
		// MySQL reports the name as written; information_schema's are upper case
		for i, e := range sc.Exprs {
			if e.As == "" {
				names[i] = strings.ToUpper(names[i])
			}
		}
	}
	if len(s.OrderBy) > 0 {
		type keyed struct {
			k []interface{}
			s *scope
		}
		ks := make([]keyed, len(kept))
		for i, sp := range kept {
			var k []interface{}
			for _, o := range s.OrderBy {
				k = append(k, ev.orderExpr(o.Expr, sc, names, sp))
			}
			ks[i] = keyed{k, sp}
		}
		sort.SliceStable(ks, func(a, b int) bool {
			for i, o := range s.OrderBy {
				c := compare(ks[a].k[i], ks[b].k[i])
				if c == 0 {
					continue
				}
				if o.Direction == tree.Descending {
					return c > 0
				}
				return c < 0
			}
			return false
		})
		for i := range ks {
			kept[i] = ks[i].s
		}
	}
	var out [][]interface{}
	seen := map[string]bool{}
	for _, sp := range kept {
		var r []interface{}
		for _, e := range sc.Exprs {
			r = append(r, ev.expr(e.Expr, sp))
		}
		if sc.Distinct {
			k := fmt.Sprintf("%#v", r)
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		out = append(out, r)
	}
	if s.Limit != nil {
		off, cnt := int64(0), int64(len(out))
		if s.Limit.Offset != nil {
			off = ev.expr(s.Limit.Offset, outer).(int64)
		}
		if s.Limit.Count != nil {
			if v, ok := ev.expr(s.Limit.Count, outer).(int64); ok {
				cnt = v
			}
		}
		if off > int64(len(out)) {
			off = int64(len(out))
		}
		out = out[off:]
		if cnt < int64(len(out)) {
			out = out[:cnt]
		}
	}
	return names, out
}

func (ev *evaluator) orderExpr(e tree.Expr, sc *tree.SelectClause, names []string, sp *scope) interface{} {
	if n, ok := e.(*tree.NumVal); ok {
		if i, err := strconv.Atoi(n.String()); err == nil && i >= 1 && i <= len(sc.Exprs) {
			return ev.expr(sc.Exprs[i-1].Expr, sp)
		}
	}
	if n, ok := e.(*tree.UnresolvedName); ok && n.NumParts == 1 {
		for i, se := range sc.Exprs {
			if string(se.As) == n.Parts[0] {
				return ev.expr(sc.Exprs[i].Expr, sp)
			}
		}
	}
	return ev.expr(e, sp)
}

func extend(sp *scope, b ...binding) *scope {
	n := &scope{parent: sp.parent}
	n.binds = append(n.binds, sp.binds...)
	n.binds = append(n.binds, b...)
	return n
}

func (ev *evaluator) product(in []*scope, te tree.TableExpr) []*scope {
	var out []*scope
	for _, sp := range in {
		for _, bs := range ev.table(te, sp) {
			out = append(out, extend(sp, bs...))
		}
	}
	return out
}

func (ev *evaluator) table(te tree.TableExpr, sp *scope) [][]binding {
	switch t := te.(type) {
	case *tree.ParenTableExpr:
		return ev.table(t.Expr, sp)
	case *tree.AliasedTableExpr:
		alias := string(t.As.Alias)
		switch x := t.Expr.(type) {
		case *tree.TableName:
			return ev.relation(x, alias)
		case *tree.RowsFromExpr:
			return ev.rowsFrom(x, alias, t.As.Cols, sp)
		case *tree.Subquery:
			ps, ok := x.Select.(*tree.ParenSelect)
			if !ok {
				unsupported("subquery %T", x.Select)
			}
			names, rows := ev.sel(ps.Select, sp)
			var out [][]binding
			for _, r := range rows {
				v := row{}
				for i, n := range names {
					v[strings.ToLower(n)] = r[i]
				}
				out = append(out, []binding{{name: strings.ToLower(alias), cols: names, vals: v}})
			}
			return out
		}
		return ev.table(t.Expr, sp)
	case *tree.TableName:
		return ev.relation(t, "")
	case *tree.RowsFromExpr:
		return ev.rowsFrom(t, "", nil, sp)
	case *tree.JoinTableExpr:
		left := ev.table(t.Left, sp)
		var on tree.Expr
		switch c := t.Cond.(type) {
		case nil:
		case *tree.OnJoinCond:
			on = c.Expr
		default:
			unsupported("join condition %T", c)
		}
		if t.JoinType != "" && t.JoinType != tree.AstInner && t.JoinType != tree.AstLeft && t.JoinType != tree.AstCross {
			unsupported("join type %s", t.JoinType)
		}
		var out [][]binding
		for _, l := range left {
			lsp := extend(sp, l...)
			right := ev.table(t.Right, lsp)
			matched := false
			for _, r := range right {
				jsp := extend(lsp, r...)
				if on == nil || truthy(ev.expr(on, jsp)) {
					matched = true
					out = append(out, append(append([]binding(nil), l...), r...))
				}
			}
			if !matched && t.JoinType == tree.AstLeft {
				out = append(out, append(append([]binding(nil), l...), ev.nulls(t.Right)...))
			}
		}
		return out
	}
	unsupported("table expression %T", te)
	return nil
}

func (ev *evaluator) nulls(te tree.TableExpr) []binding {
	if a, ok := te.(*tree.AliasedTableExpr); ok {
		if n, ok := a.Expr.(*tree.TableName); ok {
			cols, _, found := ev.cat.relation(string(n.SchemaName), string(n.TableName), ev.mysql)
			if !found {
				panic(sqlError("relation does not exist: " + n.String()))
			}
			nm := string(a.As.Alias)
			if nm == "" {
				nm = string(n.TableName)
			}
			return []binding{{name: strings.ToLower(nm), cols: cols, vals: row{}}}
		}
	}
	unsupported("LEFT JOIN onto %T", te)
	return nil
}

func (ev *evaluator) relation(n *tree.TableName, alias string) [][]binding {
	cols, rows, ok := ev.cat.relation(string(n.SchemaName), string(n.TableName), ev.mysql)
	if !ok {
		panic(sqlError("relation does not exist: " + n.String()))
	}
	if alias == "" {
		alias = string(n.TableName)
	}
	var out [][]binding
	for _, r := range rows {
		out = append(out, []binding{{name: strings.ToLower(alias), cols: cols, vals: r}})
	}
	return out
}

func (ev *evaluator) rowsFrom(x *tree.RowsFromExpr, alias string, cols tree.NameList, sp *scope) [][]binding {
	if len(x.Items) != 1 {
		unsupported("ROWS FROM")
	}
	f, ok := x.Items[0].(*tree.FuncExpr)
	if !ok {
		unsupported("rows from %T", x.Items[0])
	}
	fn := strings.ToLower(f.Func.String())
	col := alias
	if len(cols) > 0 {
		col = string(cols[0])
	}
	if col == "" {
		col = fn
	}
	var vals []interface{}
	switch fn {
	case "generate_subscripts":
		arr, _ := ev.expr(f.Exprs[0], sp).([]int64)
		for i := range arr {
			vals = append(vals, int64(i)) // int2vector subscripts start at 0
		}
	case "unnest":
		arr, _ := ev.expr(f.Exprs[0], sp).([]int64)
		for _, v := range arr {
			vals = append(vals, v)
		}
	case "generate_series":
		a, b := ev.expr(f.Exprs[0], sp).(int64), ev.expr(f.Exprs[1], sp).(int64)
		for i := a; i <= b; i++ {
			vals = append(vals, i)
		}
	default:
		unsupported("table function %s", fn)
	}
	var out [][]binding
	for _, v := range vals {
		nm := alias
		if nm == "" {
			nm = fn
		}
		out = append(out, []binding{{name: strings.ToLower(nm), cols: []string{col}, vals: row{strings.ToLower(col): v}}})
	}
	return out
}

func truthy(v interface{}) bool {
	b, ok := v.(bool)
	return ok && b
}

func compare(a, b interface{}) int {
	if a == nil || b == nil {
		switch {
		case a == nil && b == nil:
			return 0
		case a == nil:
			return 1
		default:
			return -1
		}
	}
	switch x := a.(type) {
	case int64:
		y, ok := b.(int64)
		if !ok {
			panic(sqlError("type mismatch in comparison"))
		}
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	case string:
		y, ok := b.(string)
		if !ok {
			panic(sqlError("type mismatch in comparison"))
		}
		return strings.Compare(x, y)
	case bool:
		y, ok := b.(bool)
		if !ok {
			panic(sqlError("type mismatch in comparison"))
		}
		if x == y {
			return 0
		}
		if !x {
			return -1
		}
		return 1
	}
	unsupported("comparison of %T", a)
	return 0
}

func (ev *evaluator) lookup(n *tree.UnresolvedName, sp *scope) interface{} {
	if n.Star || n.NumParts > 2 {
		unsupported("name %s", n.String())
	}
	col := strings.ToLower(n.Parts[0])
	tbl := ""
	if n.NumParts == 2 {
		tbl = strings.ToLower(n.Parts[1])
	}
	for s := sp; s != nil; s = s.parent {
		found := 0
		var val interface{}
		for _, b := range s.binds {
			if tbl != "" && b.name != tbl {
				continue
			}
			for _, c := range b.cols {
				if strings.ToLower(c) == col {
					found++
					val = b.vals[col]
				}
			}
		}
		if found == 1 {
			return val
		}
		if found > 1 {
			panic(sqlError("column reference is ambiguous: " + n.String()))
		}
	}
	panic(sqlError("column does not exist: " + n.String()))
}

func (ev *evaluator) list(e tree.Expr, sp *scope) []interface{} {
	switch x := e.(type) {
	case *tree.Tuple:
		var r []interface{}
		for _, i := range x.Exprs {
			r = append(r, ev.expr(i, sp))
		}
		return r
	case *tree.ParenExpr:
		return ev.list(x.Expr, sp)
	case *tree.Subquery:
		ps := x.Select.(*tree.ParenSelect)
		_, rows := ev.sel(ps.Select, sp)
		var r []interface{}
		for _, i := range rows {
			r = append(r, i[0])
		}
		return r
	}
	v := ev.expr(e, sp)
	switch a := v.(type) {
	case []int64:
		var r []interface{}
		for _, i := range a {
			r = append(r, i)
		}
		return r
	case []string:
		var r []interface{}
		for _, i := range a {
			r = append(r, i)
		}
		return r
	case nil:
		return nil
	}
	return []interface{}{v}
}

func (ev *evaluator) expr(e tree.Expr, sp *scope) interface{} {
	switch x := e.(type) {
	case *tree.ParenExpr:
		return ev.expr(x.Expr, sp)
	case *tree.AndExpr:
		l := ev.expr(x.Left, sp)
		if b, ok := l.(bool); ok && !b {
			return false
		}
		r := ev.expr(x.Right, sp)
		if b, ok := r.(bool); ok && !b {
			return false
		}
		if l == nil || r == nil {
			return nil
		}
		return true
	case *tree.OrExpr:
		l, r := ev.expr(x.Left, sp), ev.expr(x.Right, sp)
		if truthy(l) || truthy(r) {
			return true
		}
		if l == nil || r == nil {
			return nil
		}
		return false
	case *tree.NotExpr:
		v := ev.expr(x.Expr, sp)
		if v == nil {
			return nil
		}
		return !truthy(v)
	case *tree.UnresolvedName:
		return ev.lookup(x, sp)
	case *tree.StrVal:
		return x.RawString()
	case *tree.NumVal:
		i, err := strconv.ParseInt(x.String(), 10, 64)
		if err != nil {
			unsupported("number %s", x.String())
		}
		return i
	case *tree.DBool:
		return bool(*x)
	case *tree.Placeholder:
		i := int(x.Idx)
		if i >= len(ev.args) {
			panic(sqlError("missing argument"))
		}
		switch v := ev.args[i].(type) {
		case []byte:
			return string(v)
		default:
			return v
		}
	case *tree.CoalesceExpr:
		for _, i := range x.Exprs {
			if v := ev.expr(i, sp); v != nil {
				return v
			}
		}
		return nil
	case *tree.CastExpr:
		return ev.expr(x.Expr, sp)
	case *tree.CaseExpr:
		if x.Expr != nil {
			unsupported("CASE x")
		}
		for _, w := range x.Whens {
			if truthy(ev.expr(w.Cond, sp)) {
				return ev.expr(w.Val, sp)
			}
		}
		if x.Else == nil {
			return nil
		}
		return ev.expr(x.Else, sp)
	case *tree.BinaryExpr:
		l, r := ev.expr(x.Left, sp), ev.expr(x.Right, sp)
		a, ok1 := l.(int64)
		b, ok2 := r.(int64)
		if !ok1 || !ok2 {
			unsupported("arithmetic on %T", l)
		}
		switch x.Operator {
		case tree.Plus:
			return a + b
		case tree.Minus:
			return a - b
		}
		unsupported("operator %v", x.Operator)
	case *tree.ComparisonExpr:
		op := x.Operator
		switch op {
		case tree.In, tree.NotIn, tree.Any, tree.Some:
			l := ev.expr(x.Left, sp)
			if (op == tree.Any || op == tree.Some) && x.SubOperator != tree.EQ {
				unsupported("ANY operator")
			}
			hit := false
			for _, v := range ev.list(x.Right, sp) {
				if l != nil && v != nil && compare(l, v) == 0 {
					hit = true
				}
			}
			if l == nil {
				return nil
			}
			if op == tree.NotIn {
				return !hit
			}
			return hit
		}
		l, r := ev.expr(x.Left, sp), ev.expr(x.Right, sp)
		switch op {
		case tree.IsNotDistinctFrom:
			return l == nil && r == nil || l != nil && r != nil && compare(l, r) == 0
		case tree.IsDistinctFrom:
			return !(l == nil && r == nil || l != nil && r != nil && compare(l, r) == 0)
		}
		if l == nil || r == nil {
			return nil
		}
		c := compare(l, r)
		switch op {
		case tree.EQ:
			return c == 0
		case tree.NE:
			return c != 0
		case tree.LT:
			return c < 0
		case tree.LE:
			return c <= 0
		case tree.GT:
			return c > 0
		case tree.GE:
			return c >= 0
		}
		unsupported("comparison %v", op)
	case *tree.FuncExpr:
		switch fn := strings.ToLower(x.Func.String()); fn {
		case "pg_get_indexdef":
			oid, _ := ev.expr(x.Exprs[0], sp).(int64)
			col, _ := ev.expr(x.Exprs[1], sp).(int64)
			return ev.cat.indexDef(oid, col)
		default:
			unsupported("function %s", fn)
		}
	case *tree.ArrayFlatten:
		sq, ok := x.Subquery.(*tree.Subquery)
		if !ok {
			unsupported("ARRAY(%T)", x.Subquery)
		}
		_, rows := ev.sel(sq.Select.(*tree.ParenSelect).Select, sp)
		var r []string
		for _, i := range rows {
			s, ok := i[0].(string)
			if !ok {
				unsupported("array of %T", i[0])
			}
			r = append(r, s)
		}
		return r
	default:
		if fmt.Sprintf("%T", e) == "tree.dNull" {
			return nil
		}
		unsupported("expression %T %s", e, e.String())
	}
	return nil
}

// TextArray is PostgreSQL's text form of a text[] value.
func TextArray(v []string) string {
	var parts []string
	for _, s := range v {
		if s == "" || strings.ContainsAny(s, "{},\"\\ \t\n") || strings.EqualFold(s, "NULL") {
			s = `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
		}
		parts = append(parts, s)
	}
	return "{" + strings.Join(parts, ",") + "}"
}
