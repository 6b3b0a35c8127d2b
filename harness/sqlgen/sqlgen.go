// Package sqlgen generates SELECT statements together with the answer: which columns of which base
// tables the statement compares (WHERE, JOIN ON) and which it only refers to.
package sqlgen

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/fakedb"
	"verif/harness/gen"
)

type Base struct{ Table, Column string }

type outCol struct {
	name string
	base []Base
	star bool // exposed through *
}

type source struct {
	alias   string
	cols    []outCol
	pseudo  map[string]bool // names the tool wrongly takes for outputs (known finding)
	derived bool
	table   string // name of the table, when the source has no alias
}

type scope struct {
	sources []*source
	outer   *scope
	all     []*source // every source of the select, when sources is a part of them
	partial bool      // more sources are going to be added
	lateral bool      // a LATERAL item has been written
}

func (s *scope) names() []*source {
	if s.all != nil {
		return s.all
	}
	return s.sources
}

type G struct {
	T     *rapid.T
	MySQL bool
	Cat   *fakedb.Catalog
	Roles map[Base]bool // true: condition
	// Avoided counts references written qualified because of the known finding about names a derived table does not expose.
	Avoided int
	Feat    map[string]bool
	Tables  int // base tables named

	n     int
	last  map[string]string
	used  map[string]bool
	depth int
	mute  int
}

func New(t *rapid.T, mysql bool, cat *fakedb.Catalog) *G {
	return &G{T: t, MySQL: mysql, Cat: cat, Roles: map[Base]bool{}, Feat: map[string]bool{}}
}

func (g *G) pick(label string, xs ...string) string { return gen.Pick(g.T, label, xs...) }
func (g *G) chance(label string, p int) bool        { return gen.Chance(g.T, label, p) }
func (g *G) num(label string, a, b int) int         { return rapid.IntRange(a, b).Draw(g.T, label) }
func (g *G) feat(f string)                          { g.Feat[f] = true }

func plainIdent(s string) bool {
	if s == "" || s[0] >= '0' && s[0] <= '9' {
		return false
	}
	for i := 0; i < len(s); i++ {
		b := s[i]
		if !(b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z') {
			return false
		}
	}
	switch s {
	case "name", "kind", "status", "email", "id":
		return true
	case "order", "group", "user", "select", "table", "key", "index", "column", "desc":
		return false
	}
	return true
}

// ident writes an identifier: quoted, plain, or plain in another letter case.
func (g *G) ident(s string) string {
	be := "postgres"
	if g.MySQL {
		be = "mysql"
	}
	fold := g.MySQL && plainIdent(strings.ToLower(s))
	if !plainIdent(s) && !fold {
		return gen.Quote(be, s)
	}
	switch g.num("quote", 0, 5) {
	case 0, 1:
		if fold && s != strings.ToLower(s) && g.chance("lower", 50) {
			return gen.Quote(be, strings.ToLower(s))
		}
		return gen.Quote(be, s)
	case 2:
		g.feat("letter case")
		return strings.ToUpper(s)
	}
	return s
}

// alias identifiers and table names keep one spelling in MySQL, where they can be case-sensitive.
func (g *G) tident(s string) string {
	if g.MySQL {
		if plainIdent(s) && g.chance("plain", 60) {
			return s
		}
		return gen.Quote("mysql", s)
	}
	return g.ident(s)
}

func (g *G) use(base []Base, cond bool) {
	if g.mute > 0 {
		return
	}
	for _, b := range base {
		g.Roles[b] = g.Roles[b] || cond
	}
}

// colRef writes a reference to a column visible in sc.
func (g *G) colRef(sc *scope, cond bool) (string, []Base) {
	lv, s := 0, sc
	for s.outer != nil && (len(s.sources) == 0 || g.chance("outer", 18)) {
		s = s.outer
		lv++
	}
	if len(s.sources) == 0 {
		return "1", nil
	}
	if lv > 0 {
		g.feat(fmt.Sprintf("correlated over %d level(s)", lv))
	}
	src := s.sources[g.num("src", 0, len(s.sources)-1)]
	if len(src.cols) == 0 {
		return "1", nil
	}
	c := src.cols[g.num("c", 0, len(src.cols)-1)]
	unq := g.chance("unqualified", 45)
	blocked := false
	if unq {
		for x := sc; ; x = x.outer {
			if x.partial {
				unq = false
			}
			for _, o := range x.names() {
				for _, oc := range o.cols {
					if g.same(oc.name, c.name) && o != src {
						unq = false
					}
				}
				if o != src && o.pseudo[c.name] {
					blocked = true
				}
			}
			if x == s {
				break
			}
		}
	}
	if unq && blocked {
		g.Avoided++
		unq = false
	}
	// a qualifier hidden by a nearer source of the same alias cannot be written
	if !unq {
		for x := sc; x != s; x = x.outer {
			for _, o := range x.names() {
				if g.same(o.alias, src.alias) {
					unq = true
				}
			}
		}
		if unq {
			return "1", nil
		}
	}
	g.use(c.base, cond)
	if unq {
		g.feat("unqualified name")
		return g.ident(c.name), c.base
	}
	if src.derived {
		g.feat("column of a derived table")
	}
	if src.table != "" && g.chance("schema", 5) {
		g.feat("column with schema name")
		if g.MySQL {
			return g.tident("appdb") + "." + g.tident(src.alias) + "." + g.ident(c.name), c.base
		}
		return g.ident("public") + "." + g.ident(src.alias) + "." + g.ident(c.name), c.base
	}
	if !g.MySQL && !src.derived && g.chance("parenthesised", 3) {
		return "(" + g.ident(src.alias) + ")." + g.ident(c.name), c.base
	}
	return g.tident(src.alias) + "." + g.ident(c.name), c.base
}

// paren puts an expression in parentheses unless it is a parenthesised SELECT already: ((SELECT ..)) is answered
// with an "unsupported" error.
func paren(s string) string {
	if strings.HasPrefix(s, "(SELECT ") {
		d := 0
		for i := 0; i < len(s); i++ {
			switch s[i] {
			case '(':
				d++
			case ')':
				d--
			}
			if d == 0 {
				if i == len(s)-1 {
					return s
				}
				break
			}
		}
	}
	return "(" + s + ")"
}

func (g *G) lit() string {
	if g.MySQL {
		return g.pick("lit", "1", "'x'", "NULL", "2.5", "TRUE", "-3", "'2020-01-01'", "x'41'", "?", "@v", "'users.id'", "\"id\"")
	}
	return g.pick("lit", "1", "'x'", "NULL", "2.5", "TRUE", "-3", "DATE '2020-01-01'", "'users.id'", "INTERVAL '1 day'", "'a''b'", "E'a\\nb'", "$1", "CURRENT_DATE")
}

// expr writes an expression and returns the base columns its value is made of (subqueries excluded).
func (g *G) expr(sc *scope, cond bool, d int) (string, []Base) {
	if d <= 0 {
		if g.chance("leaflit", 22) {
			return g.lit(), nil
		}
		return g.colRef(sc, cond)
	}
	var all []Base
	e := func() string {
		s, b := g.expr(sc, cond, d-1)
		all = append(all, b...)
		return s
	}
	k := g.num("expr", 0, 21)
	switch k {
	case 0, 1, 2, 3:
		s, b := g.colRef(sc, cond)
		return s, b
	case 4:
		return e() + g.pick("arith", " + ", " - ", " * ", " / ", " % ") + e(), all
	case 5:
		return paren(e()), all
	case 6:
		g.feat("function")
		f := g.pick("func", "LOWER", "ABS", "COALESCE", "NULLIF", "CONCAT", "GREATEST")
		switch f {
		case "LOWER", "ABS":
			return f + "(" + e() + ")", all
		case "NULLIF":
			return f + "(" + e() + ", " + e() + ")", all
		}
		s := f + "(" + e()
		for i := g.num("args", 1, 2); i > 0; i-- {
			s += ", " + e()
		}
		return s + ")", all
	case 7:
		g.feat("CASE")
		s := "CASE"
		if g.chance("casev", 40) {
			s += " " + e()
		}
		for i := g.num("whens", 1, 2); i > 0; i-- {
			s += " WHEN " + e() + " THEN " + e()
		}
		if g.chance("else", 60) {
			s += " ELSE " + e()
		}
		return s + " END", all
	case 8:
		g.feat("cast")
		if g.MySQL {
			return "CAST(" + e() + " AS " + g.pick("mt", "CHAR", "SIGNED", "DATE") + ")", all
		}
		if g.chance("pgcast", 50) {
			return paren(e()) + "::" + g.pick("pt", "TEXT", "INT", "DATE"), all
		}
		return "CAST(" + e() + " AS TEXT)", all
	case 9:
		return "(" + paren(e()) + g.pick("isnull", " IS NULL", " IS NOT NULL") + ")", all
	case 10:
		g.feat("BETWEEN")
		return "(" + paren(e()) + g.pick("between", " BETWEEN ", " NOT BETWEEN ") + paren(e()) + " AND " + paren(e()) + ")", all
	case 11:
		g.feat("IN list")
		s := "(" + paren(e()) + g.pick("in", " IN (", " NOT IN (") + g.lit()
		for i := g.num("ins", 0, 2); i > 0; i-- {
			s += ", " + e()
		}
		return s + "))", all
	case 12:
		op := g.pick("like", " LIKE ", " NOT LIKE ", " REGEXP ")
		if !g.MySQL {
			op = g.pick("like", " LIKE ", " ILIKE ", " NOT LIKE ", " SIMILAR TO ", " ~ ")
		}
		return "(" + paren(e()) + op + paren(e()) + ")", all
	case 13:
		return "(NOT " + paren(e()) + ")", all
	case 14, 15:
		return paren(g.boolean(sc, cond, d-1, &all)), all
	case 16:
		if g.MySQL {
			switch g.num("mysqlonly", 0, 16) {
			case 0:
				return "IF(" + e() + ", " + e() + ", " + e() + ")", all
			case 1:
				return "DATE_ADD(" + e() + ", INTERVAL " + e() + " DAY)", all
			case 2:
				return "(" + paren(e()) + " IS TRUE)", all
			case 3:
				g.feat("COLLATE")
				return paren(e()) + " COLLATE utf8mb4_bin", all
			case 4:
				return "(" + paren(e()) + " <=> " + paren(e()) + ")", all
			case 5:
				return "TRIM(LEADING " + g.lit() + " FROM " + e() + ")", all
			case 6:
				return "-" + paren(e()), all
			case 7:
				return "CONVERT(" + e() + " USING utf8mb4)", all
			case 8:
				return "EXTRACT(YEAR FROM " + e() + ")", all
			case 9:
				return "POSITION(" + paren(e()) + " IN " + paren(e()) + ")", all
			case 10:
				return "SUBSTRING(" + e() + " FROM " + e() + " FOR 2)", all
			case 11:
				return "(" + paren(e()) + g.pick("op2", " DIV ", " XOR ", " MOD ", " | ", " << ") + paren(e()) + ")", all
			case 12:
				return "TIMESTAMPDIFF(DAY, " + e() + ", " + e() + ")", all
			case 13:
				l := paren(e())
				s, b := g.colRef(sc, cond)
				return "(" + l + " + INTERVAL " + s + " DAY)", append(all, b...)
			case 14:
				return "CHAR(" + e() + ", " + e() + " USING utf8mb4)", all
			case 15:
				return "(" + paren(e()) + " LIKE " + paren(e()) + " ESCAPE '|')", all
			case 16:
				s, b := g.colRef(sc, cond)
				if b == nil {
					return s, b
				}
				if g.chance("match", 50) {
					s2, b2 := g.colRef(sc, cond)
					if b2 != nil {
						g.feat("MATCH")
						return "(MATCH (" + s + ", " + s2 + ") AGAINST ('x' IN BOOLEAN MODE))", append(b, b2...)
					}
				}
				return s + g.pick("json", "->'$.a'", "->>'$.b'"), b
			}
		}
		switch g.num("pgonly", 0, 16) {
		case 7:
			return paren(e()) + " AT TIME ZONE 'UTC'", all
		case 8:
			return paren(e()) + g.pick("json", "->'a'", "->>'b'", "#>'{a}'"), all
		case 9:
			return "(" + paren(e()) + g.pick("jop", " @> ", " ? ", " <@ ", " && ") + paren(e()) + ")", all
		case 10:
			return "POSITION(" + paren(e()) + " IN " + paren(e()) + ")", all
		case 11:
			return "SUBSTRING(" + e() + " FROM " + paren(e()) + " FOR 2)", all
		case 12:
			return "OVERLAY(" + e() + " PLACING " + e() + " FROM 2)", all
		case 13:
			return "(" + paren(e()) + " LIKE " + paren(e()) + " ESCAPE '|')", all
		case 14:
			return "(" + paren(e()) + " BETWEEN SYMMETRIC " + paren(e()) + " AND " + paren(e()) + ")", all
		case 15:
			return "(" + paren(e()) + " = ANY('{1,2}'))", all
		case 16:
			return "TRIM(BOTH " + g.lit() + " FROM " + e() + ")", all
		case 0:
			return "ARRAY[" + e() + ", " + e() + "]", all
		case 1:
			return "(" + paren(e()) + " IS DISTINCT FROM " + paren(e()) + ")", all
		case 2:
			return paren(e()) + " || " + paren(e()), all
		case 3:
			return "EXTRACT(YEAR FROM " + e() + ")", all
		case 4:
			g.feat("COLLATE")
			return paren(e()) + " COLLATE \"C\"", all
		case 5:
			return "(" + paren(e()) + " = ANY(ARRAY[" + e() + "]))", all
		}
		return "-" + paren(e()), all
	case 17:
		g.feat("row comparison")
		if g.chance("row in", 30) {
			return "((" + e() + ", " + e() + ") IN ((1, 2), (" + e() + ", " + g.lit() + ")))", all
		}
		return "((" + e() + ", " + e() + ") = (" + e() + ", " + e() + "))", all
	case 18, 19, 20:
		if g.depth < 3 {
			return g.subqueryExpr(sc, cond, d, &all), all
		}
	}
	s, b := g.colRef(sc, cond)
	return s, b
}

func (g *G) boolean(sc *scope, cond bool, d int, all *[]Base) string {
	e := func(d int) string {
		s, b := g.expr(sc, cond, d)
		*all = append(*all, b...)
		return s
	}
	n := g.num("terms", 1, 3)
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += g.pick("logic", " AND ", " OR ")
		}
		l := paren(e(d))
		if g.chance("cmp", 85) {
			op := g.pick("op", " = ", " <> ", " < ", " >= ")
			if g.chance("litfirst", 20) {
				l = g.lit() + op + l
			} else {
				l = l + op + paren(e(d-1))
			}
		}
		s += l
	}
	return s
}

// subqueryExpr writes an expression containing a subquery.
func (g *G) subqueryExpr(sc *scope, cond bool, d int, all *[]Base) string {
	g.feat("subquery in an expression")
	if g.depth > 0 {
		g.feat("nested subquery")
	}
	if g.MySQL {
		g.mute++ // the tool looks at the outermost SELECT only for MySQL
		defer func() { g.mute-- }()
	}
	sub := func(one bool) string {
		s, _, _ := g.sel(sc, one)
		return "(" + s + ")"
	}
	e := func() string {
		if g.MySQL {
			g.mute--
			defer func() { g.mute++ }()
		}
		s, b := g.expr(sc, cond, d-1)
		*all = append(*all, b...)
		return s
	}
	switch g.num("sub", 0, 4) {
	case 0:
		return "(" + g.pick("exists", "EXISTS ", "NOT EXISTS ") + sub(false) + ")"
	case 1:
		l := e()
		return "(" + paren(l) + g.pick("insub", " IN ", " NOT IN ") + sub(true) + ")"
	case 2:
		l := e()
		return "(" + paren(l) + g.pick("any", " = ANY ", " > ALL ") + sub(true) + ")"
	case 3:
		l := e()
		return "(" + paren(l) + g.pick("cmpsub", " = ", " < ") + sub(true) + ")"
	}
	return sub(true)
}

func (g *G) fresh(p string) string {
	if !g.MySQL && g.chance("upper case", 12) {
		// "A3" is another name than a3
		g.feat("names differing in letter case only")
		if l := strings.ToUpper(g.last[p]); l != "" && l != g.last[p] && !g.used[l] && g.chance("alike", 60) {
			g.used[l] = true
			return l
		}
		p = strings.ToUpper(p)
	}
	g.n++
	f := fmt.Sprintf("%s%d", p, g.n)
	if g.last == nil {
		g.last, g.used = map[string]string{}, map[string]bool{}
	}
	g.last[p], g.used[f] = f, true
	return f
}

func (g *G) fold(s string) string {
	if g.MySQL {
		return strings.ToLower(s)
	}
	return s
}

// same tells whether two names are the same one.
func (g *G) same(a, b string) bool {
	return a == b || g.MySQL && strings.EqualFold(a, b)
}

func (g *G) tableSource(sc *scope) (string, *source) {
	t := g.Cat.Tables[g.num("t", 0, len(g.Cat.Tables)-1)]
	g.Tables++
	s := &source{alias: t.Name, table: t.Name}
	for _, c := range t.ColNames() {
		n := c
		if g.MySQL {
			n = strings.ToLower(c)
		}
		s.cols = append(s.cols, outCol{name: c, base: []Base{{t.Name, n}}})
	}
	txt := g.tident(t.Name)
	if !g.MySQL && g.chance("public", 6) {
		txt = "public." + txt
	}
	if sc.lateral || g.chance("alias", 55) {
		s.alias = g.fresh("a")
		s.table = ""
		if !sc.lateral && g.chance("aliasname", 8) {
			s.alias = g.Cat.Tables[g.num("at", 0, len(g.Cat.Tables)-1)].Name
		}
		txt += g.pick("as", " AS ", " ") + g.tident(s.alias)
	}
	if g.MySQL && g.chance("hint", 5) {
		g.feat("index hint")
		txt += g.pick("hint", " USE INDEX (ix)", " FORCE INDEX FOR JOIN (ix, iy)", " IGNORE INDEX (PRIMARY)")
	}
	return txt, s
}

func (g *G) derivedSource(sc *scope, lateral bool) (string, *source) {
	g.feat("derived table")
	vis := sc.outer
	p := ""
	if lateral {
		g.feat("LATERAL")
		vis = sc
		sc.lateral = true
		p = "LATERAL "
	}
	txt, cols, pseudo := g.sel(vis, false)
	s := &source{alias: g.fresh("d"), cols: cols, derived: true, pseudo: pseudo}
	return p + "(" + txt + ") AS " + g.ident(s.alias), s
}

func (g *G) fromItem(sc *scope, lateralOK bool) (string, *source) {
	if !g.MySQL && g.depth < 3 && g.chance("derived", 25) {
		return g.derivedSource(sc, lateralOK && len(sc.sources) > 0 && g.chance("lateral", 45))
	}
	return g.tableSource(sc)
}

func (g *G) addSource(sc *scope, s *source) bool {
	for _, o := range sc.sources {
		if g.same(o.alias, s.alias) {
			return false
		}
	}
	sc.sources = append(sc.sources, s)
	return true
}

// item draws a FROM item whose alias is free in sc.
func (g *G) item(sc *scope, lateralOK bool) string {
	for i := 0; i < 6; i++ {
		saved := g.snapshot()
		txt, s := g.fromItem(sc, lateralOK)
		if g.addSource(sc, s) {
			return txt
		}
		g.restore(saved)
	}
	t := g.Cat.Tables[0]
	s := &source{alias: g.fresh("z")}
	for _, c := range t.ColNames() {
		n := c
		if g.MySQL {
			n = strings.ToLower(c)
		}
		s.cols = append(s.cols, outCol{name: c, base: []Base{{t.Name, n}}})
	}
	g.addSource(sc, s)
	return g.tident(t.Name) + " AS " + g.tident(s.alias)
}

func (g *G) snapshot() map[Base]bool {
	m := map[Base]bool{}
	for k, v := range g.Roles {
		m[k] = v
	}
	return m
}

func (g *G) restore(m map[Base]bool) { g.Roles = m }

// sel writes a SELECT seen from outer; it returns its output columns and the pseudo outputs.
func (g *G) sel(outer *scope, oneCol bool) (string, []outCol, map[string]bool) {
	g.depth++
	defer func() { g.depth-- }()
	sc := &scope{outer: outer}
	from := ""
	if !(!g.MySQL && g.depth > 1 && g.chance("nofrom", 4)) {
		sc.partial = true
		type part struct {
			text  string
			on    bool
			first int
			upto  int
			group int // first source of a parenthesised join
		}
		parts := []part{{text: " FROM " + g.item(sc, false)}}
		if g.MySQL && g.chance("group of tables", 5) {
			g.feat("parenthesised join")
			parts[0].text = " FROM (" + strings.TrimPrefix(parts[0].text, " FROM ") + ", " + g.item(sc, false) + ")"
		}
		first := 0
		for i := g.num("joins", 0, 2); i > 0; i-- {
			if g.chance("comma", 20) {
				g.feat("comma join")
				parts = append(parts, part{text: ", " + g.item(sc, true)})
				first = len(sc.sources) - 1
				continue
			}
			k := g.pick("join", " JOIN ", " INNER JOIN ", " LEFT JOIN ", " LEFT OUTER JOIN ", " RIGHT JOIN ", " CROSS JOIN ")
			if g.MySQL && g.chance("group", 10) {
				g.feat("parenthesised join")
				at := len(sc.sources)
				txt := k + "(" + g.item(sc, false) + g.pick("join", " JOIN ", " LEFT JOIN ") + g.item(sc, false)
				parts = append(parts, part{text: txt, on: k != " CROSS JOIN ", first: first, upto: len(sc.sources), group: at})
				continue
			}
			if !g.MySQL && g.chance("full", 6) {
				k = " FULL OUTER JOIN "
			} else if g.MySQL && g.chance("straight", 6) {
				k = " STRAIGHT_JOIN "
			}
			txt := k + g.item(sc, k != " RIGHT JOIN " && k != " FULL OUTER JOIN ")
			parts = append(parts, part{text: txt, on: k != " CROSS JOIN ", first: first, upto: len(sc.sources)})
		}
		sc.partial = false
		for _, p := range parts {
			from += p.text
			if p.group > 0 {
				in := &scope{outer: outer, sources: sc.sources[p.group:p.upto], all: sc.sources}
				var all []Base
				from += " ON " + g.boolean(in, true, g.num("ond", 0, 1), &all) + ")"
			}
			if p.on {
				// a JOIN binds tighter than a comma: its ON sees the items since the last comma
				on := &scope{outer: outer, sources: sc.sources[p.first:p.upto], all: sc.sources}
				var all []Base
				g.feat("ON")
				from += " ON " + g.boolean(on, true, g.num("ond", 0, 1), &all)
			}
		}
	}
	var outs []outCol
	var sels []string
	pseudo := map[string]bool{}
	n := g.num("outs", 1, 3)
	if oneCol {
		n = 1
	}
	var aliases []string
	for i := 0; i < n; i++ {
		switch {
		case !oneCol && len(sc.sources) > 0 && g.chance("star", 12):
			g.feat("star")
			src := sc.sources[g.num("ss", 0, len(sc.sources)-1)]
			if len(sc.sources) == 1 && g.chance("bare", 50) {
				sels = append(sels, "*")
			} else {
				sels = append(sels, g.tident(src.alias)+".*")
			}
			for _, c := range src.cols {
				outs = append(outs, outCol{c.name, c.base, true})
			}
			for n := range src.pseudo {
				pseudo[n] = true
			}
		case g.depth == 1 && !g.MySQL && g.chance("agg", 12), g.MySQL && g.depth == 1 && g.chance("agg", 12):
			g.feat("aggregate or window")
			s := g.aggregate(sc)
			if g.chance("asagg", 60) {
				a := g.fresh("o")
				s += " AS " + g.ident(a)
				aliases = append(aliases, a)
			}
			sels = append(sels, s)
		case g.chance("plaincol", 40):
			s, b := g.colRef(sc, false)
			name := g.lastName(s)
			if len(b) == 0 && name == "" || g.chance("ascol", 25) || name == "" {
				a := g.fresh("o")
				sels = append(sels, s+" AS "+g.ident(a))
				aliases = append(aliases, a)
				outs = append(outs, outCol{name: a, base: b})
			} else {
				sels = append(sels, s)
				outs = append(outs, outCol{name: g.realName(sc, name), base: b})
			}
		default:
			s, b := g.expr(sc, false, g.num("sd", 0, 2))
			a := g.fresh("o")
			sels = append(sels, s+g.pick("asw", " AS ", " AS ")+g.ident(a))
			aliases = append(aliases, a)
			outs = append(outs, outCol{name: a, base: b})
		}
	}
	single := func(s string) {
		if nm := g.lastName(s); nm != "" {
			pseudo[g.realName(sc, nm)] = true
		}
	}
	anyPseudo := func(b []Base, s string) {
		single(s)
		for _, x := range b {
			pseudo[x.Column] = true
		}
		for _, x := range g.namesIn(sc) {
			if strings.Contains(strings.ToLower(s), strings.ToLower(x)) {
				pseudo[x] = true
			}
		}
	}
	sql := "SELECT "
	if g.chance("modifier", 4) {
		if g.MySQL {
			sql += g.pick("mod", "ALL ", "SQL_NO_CACHE ", "STRAIGHT_JOIN ", "SQL_BIG_RESULT ")
		} else {
			sql += "ALL "
		}
	} else if g.chance("distinct", 8) {
		sql += "DISTINCT "
		if !g.MySQL && len(sc.sources) > 0 && g.chance("on", 40) {
			g.feat("DISTINCT ON")
			s, b := g.colRef(sc, false)
			anyPseudo(b, s)
			sql += "ON (" + s + ") "
		}
	}
	sql += strings.Join(sels, ", ") + from
	if g.chance("where", 75) {
		var all []Base
		g.feat("WHERE")
		sql += " WHERE " + g.boolean(sc, true, g.num("wd", 0, 2), &all)
	}
	if g.chance("group", 22) {
		g.feat("GROUP BY")
		var ks []string
		for i := g.num("groups", 1, 2); i > 0; i-- {
			s, b := g.expr(sc, false, g.num("gd", 0, 1))
			anyPseudo(b, s)
			ks = append(ks, s)
		}
		if len(aliases) > 0 && g.chance("galias", 15) {
			g.feat("output alias in GROUP BY/ORDER BY")
			ks = append(ks, g.ident(aliases[0]))
		}
		if g.chance("ordinal", 6) {
			ks = append(ks, "1")
		}
		sql += " GROUP BY " + strings.Join(ks, ", ")
		if g.chance("having", 50) {
			g.feat("HAVING")
			var all []Base
			s := g.boolean(sc, false, 1, &all)
			anyPseudo(all, s)
			sql += " HAVING " + s
			if g.MySQL && len(aliases) > 0 && g.chance("halias", 30) {
				g.feat("output alias in HAVING")
				sql += " AND " + g.ident(aliases[0]) + " > 1"
			}
		}
	}
	if g.chance("order", 30) {
		g.feat("ORDER BY")
		var ks []string
		for i := g.num("orders", 1, 2); i > 0; i-- {
			if len(aliases) > 0 && g.chance("oalias", 20) {
				g.feat("output alias in GROUP BY/ORDER BY")
				ks = append(ks, g.ident(aliases[g.num("oa", 0, len(aliases)-1)]))
				continue
			}
			s, b := g.expr(sc, false, g.num("od", 0, 1))
			anyPseudo(b, s)
			ks = append(ks, s+g.pick("dir", "", " DESC", " ASC"))
		}
		if g.chance("ordinal", 6) {
			ks = append(ks, "1 DESC")
		}
		sql += " ORDER BY " + strings.Join(ks, ", ")
	}
	if g.chance("limit", 15) {
		count := func(n string) string {
			if g.MySQL || g.depth > 2 || !g.chance("limitsub", 25) {
				return n
			}
			g.feat("subquery in LIMIT")
			s, _, _ := g.sel(nil, true)
			return "(" + s + ")"
		}
		switch {
		case g.MySQL && g.chance("two", 20):
			sql += " LIMIT 5, 10"
		case !g.MySQL && g.chance("fetch", 15):
			sql += " FETCH FIRST 3 ROWS ONLY"
		default:
			sql += " LIMIT " + count("10")
			if g.chance("offset", 40) {
				sql += " OFFSET " + count("5")
			}
		}
	}
	if g.depth == 1 && g.chance("lock", 4) {
		sql += " FOR UPDATE"
	}
	// a name exposed twice cannot be referenced from outside
	cnt := map[string]int{}
	for _, o := range outs {
		cnt[g.fold(o.name)]++
	}
	var uniq []outCol
	for _, o := range outs {
		if o.star && pseudo[o.name] {
			g.Avoided++
		} else if cnt[g.fold(o.name)] == 1 && o.name != "" {
			uniq = append(uniq, o)
		} else {
			pseudo[o.name] = true
		}
	}
	for _, o := range uniq {
		delete(pseudo, o.name)
	}
	return sql, uniq, pseudo
}

func (g *G) namesIn(sc *scope) []string {
	var r []string
	for x := sc; x != nil; x = x.outer {
		for _, s := range x.sources {
			for _, c := range s.cols {
				r = append(r, c.name)
			}
		}
	}
	return r
}

// realName undoes the spelling variations of an identifier.
func (g *G) realName(sc *scope, s string) string {
	for _, n := range g.namesIn(sc) {
		if n == s {
			return n
		}
	}
	for _, n := range g.namesIn(sc) {
		if g.same(n, s) {
			return n
		}
	}
	return s
}

func (g *G) lastName(s string) string {
	n := lastName(s)
	if !g.MySQL && !strings.HasSuffix(s, `"`) {
		n = strings.ToLower(n)
	}
	return n
}

// lastName is the column name of a plain column reference, "" for anything else.
func lastName(s string) string {
	i := strings.LastIndex(s, ".")
	// dots inside quotes do not occur in generated names
	n := s[i+1:]
	if len(n) > 1 && (n[0] == '"' || n[0] == '`') {
		n = n[1 : len(n)-1]
	}
	if n == "" || n[0] >= '0' && n[0] <= '9' {
		return ""
	}
	for i := 0; i < len(n); i++ {
		b := n[i]
		if !(b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z') {
			return ""
		}
	}
	switch strings.ToUpper(n) {
	case "NULL", "TRUE", "FALSE":
		return ""
	}
	return n
}

func (g *G) aggregate(sc *scope) string {
	e := func() string { s, _ := g.expr(sc, false, g.num("ad", 0, 1)); return s }
	if g.MySQL {
		switch g.num("magg", 0, 5) {
		case 0:
			return "COUNT(*)"
		case 1:
			return "SUM(" + e() + ")"
		case 2:
			return "COUNT(DISTINCT " + e() + ")"
		case 3:
			g.feat("GROUP_CONCAT ORDER BY")
			return "GROUP_CONCAT(" + e() + " ORDER BY " + e() + " SEPARATOR ',')"
		case 4:
			return "AVG(" + e() + ")" + " OVER (PARTITION BY " + e() + " ORDER BY " + e() + g.pick("frame", "", " ROWS BETWEEN 1 PRECEDING AND CURRENT ROW", " ROWS 2 PRECEDING") + ")"
		}
		return "ROW_NUMBER() OVER (ORDER BY " + e() + " DESC)"
	}
	switch g.num("pagg", 0, 6) {
	case 0:
		return "COUNT(*)"
	case 1:
		return "SUM(" + e() + ")"
	case 2:
		return "COUNT(DISTINCT " + e() + ")"
	case 3:
		return "SUM(" + e() + ")" + " FILTER (WHERE " + e() + " > 1)"
	case 4:
		return "AVG(" + e() + ")" + " OVER (PARTITION BY " + e() + " ORDER BY " + e() + g.pick("frame", "", " ROWS BETWEEN 1 PRECEDING AND CURRENT ROW", " ROWS 2 PRECEDING", " ROWS UNBOUNDED PRECEDING") + ")"
	case 5:
		return "ARRAY_AGG(" + e() + " ORDER BY " + e() + ")"
	}
	return "ROW_NUMBER() OVER (ORDER BY " + e() + " DESC)"
}

// Statement writes a whole statement.
func (g *G) Statement() string {
	s, _, _ := g.sel(nil, false)
	if g.chance("semicolon", 8) {
		s += ";"
	}
	return s
}

// Expected computes the candidates the roles call for: every ordered selection of a table's compared columns, plus,
// when other columns are referred to as well, every order of all compared columns followed by the others sorted; without
// those that consist of primary key columns only or that exist as an index already; ordered by table, length and names.
func Expected(roles map[Base]bool, cat *fakedb.Catalog, mysql bool) []string {
	per := map[string][2][]string{}
	for b, cond := range roles {
		e := per[b.Table]
		if cond {
			e[0] = append(e[0], b.Column)
		} else {
			e[1] = append(e[1], b.Column)
		}
		per[b.Table] = e
	}
	fold := func(s string) string {
		if mysql {
			return strings.ToLower(s)
		}
		return s
	}
	var all [][]string // table, cols...
	for tn, e := range per {
		var tb *fakedb.Table
		for _, t := range cat.Tables {
			if t.Name == tn {
				tb = t
			}
		}
		conds, refs := e[0], e[1]
		sort.Strings(conds)
		sort.Strings(refs)
		var lists [][]string
		var rec func(cur []string, rest []string)
		rec = func(cur []string, rest []string) {
			if len(cur) > 0 {
				lists = append(lists, append([]string(nil), cur...))
			}
			if len(rest) == 0 && len(refs) > 0 {
				lists = append(lists, append(append([]string(nil), cur...), refs...))
			}
			for i := range rest {
				nr := append(append([]string(nil), rest[:i]...), rest[i+1:]...)
				rec(append(append([]string(nil), cur...), rest[i]), nr)
			}
		}
		rec(nil, conds)
		pk := map[string]bool{}
		for _, c := range tb.PK() {
			pk[fold(c)] = true
		}
		have := map[string]bool{}
		for _, ix := range tb.Indexes {
			var cs []string
			for _, c := range ix.Columns {
				cs = append(cs, fold(c))
			}
			have[strings.Join(cs, "\x00")] = true
		}
		for _, l := range lists {
			allPK := true
			var cs []string
			for _, c := range l {
				allPK = allPK && pk[c]
				cs = append(cs, fold(c))
			}
			if allPK || have[strings.Join(cs, "\x00")] {
				continue
			}
			all = append(all, append([]string{tn}, l...))
		}
	}
	sort.Slice(all, func(i, j int) bool {
		a, b := all[i], all[j]
		if a[0] != b[0] {
			return a[0] < b[0]
		}
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		for k := range a {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return false
	})
	var r []string
	for _, l := range all {
		r = append(r, l[0]+":"+strings.Join(l[1:], "+"))
	}
	return r
}

// MaxConds is the largest number of compared columns of one table.
func MaxConds(roles map[Base]bool) int {
	n, m := map[string]int{}, 0
	for b, c := range roles {
		if c {
			n[b.Table]++
			if n[b.Table] > m {
				m = n[b.Table]
			}
		}
	}
	return m
}
