package c30

import (
	"fmt"
	"os"
	"reflect"
	"regexp"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/fakedb"
	"verif/harness/gen"
	"verif/harness/tool"
	"verif/harness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// --- how a server reads a text (own lexer, by the manuals of PostgreSQL and MySQL) ---

func isWordByte(b byte) bool {
	return b == '_' || b == '$' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= 0x80
}

// statements splits text into statements, each a list of tokens: lower-case words, single characters,
// 's' for a string and 'i' for a quoted identifier. ok is false when the server cannot read the text at all
// (something is not terminated), so that nothing of it is executed.
func statements(mysql bool, text string) (out [][]string, ok bool) {
	var cur []string
	end := func() {
		if len(cur) > 0 {
			out = append(out, cur)
		}
		cur = nil
	}
	inExec := false
	for i := 0; i < len(text); {
		b := text[i]
		rest := text[i:]
		switch {
		case strings.IndexByte(" \t\n\r\f\v", b) >= 0:
			i++
		case b == ';':
			end()
			i++
		case mysql && inExec && strings.HasPrefix(rest, "*/"):
			inExec = false
			i += 2
		case mysql && b == '#',
			!mysql && strings.HasPrefix(rest, "--"),
			mysql && (rest == "--" || len(rest) > 2 && rest[:2] == "--" && strings.IndexByte(" \t\n\r\f\v", rest[2]) >= 0):
			j := strings.IndexByte(rest, '\n')
			if !mysql {
				j = strings.IndexAny(rest, "\n\r")
			}
			if j < 0 {
				j = len(rest)
			}
			i += j
		case mysql && strings.HasPrefix(rest, "/*!"):
			if inExec {
				return nil, false
			}
			inExec = true
			i += 3
			for k := 0; k < 5 && i < len(text) && text[i] >= '0' && text[i] <= '9'; k++ {
				i++
			}
		case mysql && strings.HasPrefix(rest, "/*"):
			j := strings.Index(rest[2:], "*/")
			if j < 0 {
				return nil, false
			}
			i += 2 + j + 2
		case strings.HasPrefix(rest, "/*"):
			depth, j := 1, 2
			for depth > 0 {
				switch {
				case j >= len(rest):
					return nil, false
				case strings.HasPrefix(rest[j:], "/*"):
					depth++
					j += 2
				case strings.HasPrefix(rest[j:], "*/"):
					depth--
					j += 2
				default:
					j++
				}
			}
			i += j
		case b == '\'' || b == '"' || mysql && b == '`':
			esc := mysql && b != '`'
			j := i + 1
			for {
				if j >= len(text) {
					return nil, false
				}
				if esc && text[j] == '\\' {
					j += 2
					continue
				}
				if text[j] == b {
					if j+1 < len(text) && text[j+1] == b {
						j += 2
						continue
					}
					break
				}
				j++
			}
			t := "s"
			if b == '`' || b == '"' && !mysql {
				t = "i"
			}
			if k := continued.FindString(text[j+1:]); !mysql && t == "s" && k != "" && len(cur) > 0 && len(out) == 0 && i > 0 && isWordByte(text[i-1]) && (cur[len(cur)-1] == "b" || cur[len(cur)-1] == "x") {
				// the continuation of a bit string is part of it
				if e := strings.IndexByte(text[j+1+len(k):], '\''); e < 0 || badDigits("x", text[j+1+len(k):][:e]) {
					return nil, false
				}
			}
			if t == "s" && b == '\'' && len(cur) > 0 && len(out) == 0 && i > 0 && isWordByte(text[i-1]) && badDigits(cur[len(cur)-1], text[i+1:j]) {
				return nil, false // b'...' and x'...' with other characters than digits: the first statement is an error
			}
			cur = append(cur, t)
			i = j + 1
		case !mysql && (b == 'e' || b == 'E') && len(rest) > 1 && rest[1] == '\'':
			j := i + 2
			for {
				if j >= len(text) {
					return nil, false
				}
				if text[j] == '\\' {
					j += 2
					continue
				}
				if text[j] == '\'' {
					if j+1 < len(text) && text[j+1] == '\'' {
						j += 2
						continue
					}
					if k := continued.FindString(text[j+1:]); k != "" {
						j += 1 + len(k) // continued on another line, in the same mode
						continue
					}
					break
				}
				j++
			}
			cur = append(cur, "s")
			i = j + 1
		case !mysql && b == '$' && dollarTag(rest) != "":
			tag := dollarTag(rest)
			j := strings.Index(rest[len(tag):], tag)
			if j < 0 {
				return nil, false
			}
			cur = append(cur, "s")
			i += len(tag) + j + len(tag)
		case isWordByte(b):
			j := i
			for j < len(text) && isWordByte(text[j]) {
				j++
			}
			cur = append(cur, strings.ToLower(text[i:j]))
			i = j
		default:
			cur = append(cur, string(b))
			i++
		}
	}
	if inExec {
		return nil, false
	}
	end()
	return out, true
}

// continued matches what may stand between two parts of one PostgreSQL string.
var continued = regexp.MustCompile(`^([ \t\f]|--[^\n\r]*)*[\n\r]([ \t\n\r\f\v]|--[^\n\r]*[\n\r])*'`)

func badDigits(prefix, content string) bool {
	digits := ""
	switch prefix {
	case "b":
		digits = "01"
	case "x":
		digits = "0123456789abcdefABCDEF"
	default:
		return false
	}
	return strings.Trim(content, digits) != ""
}

func dollarTag(s string) string {
	for j := 1; j < len(s); j++ {
		if s[j] == '$' {
			return s[:j+1]
		}
		if !isWordByte(s[j]) || j == 1 && s[j] >= '0' && s[j] <= '9' {
			return ""
		}
	}
	return ""
}

var explainOptions = map[string]bool{"analyze": true, "analyse": true, "verbose": true, "format": true, "=": true, "tree": true, "json": true, "traditional": true}
var reads = map[string]bool{"select": true, "with": true, "table": true, "values": true}

// changes says why the server does something else than reading when it is given sql ("" when it only reads).
func changes(mysql bool, sql string) string {
	sts, ok := statements(mysql, sql)
	if !ok {
		return "" // the server refuses it
	}
	if len(sts) != 1 {
		return fmt.Sprintf("the server reads %d statements in it", len(sts))
	}
	t := sts[0]
	if t[0] == "explain" {
		t = t[1:]
		if len(t) > 1 && t[0] == "(" && (t[1] == "analyze" || t[1] == "buffers" || t[1] == "format" || t[1] == "verbose") {
			for len(t) > 0 && t[0] != ")" {
				t = t[1:]
			}
			t = t[1:]
		} else {
			for len(t) > 0 && explainOptions[t[0]] {
				t = t[1:]
			}
		}
	}
	for len(t) > 0 && t[0] == "(" {
		t = t[1:]
	}
	if len(t) == 0 || !reads[t[0]] {
		return fmt.Sprintf("it is a statement other than SELECT (%.40s)", strings.Join(t, " "))
	}
	for i := range t {
		w := func(k int) string {
			if i+k < len(t) {
				return t[i+k]
			}
			return ""
		}
		if w(0) == "(" && (w(1) == "delete" && w(2) == "from" || w(1) == "insert" && w(2) == "into" || w(1) == "update" && (w(3) == "set" || w(5) == "set")) {
			return "a part of it changes data (" + w(1) + ")"
		}
		if !mysql && w(0) == "into" {
			return "it creates a table (SELECT ... INTO)"
		}
	}
	return ""
}

// --- the check ---

type scenario struct {
	backend string
	cat     *fakedb.Catalog
	run     tool.Suggest
}

func draw(c *vt.C, backend string) *scenario {
	s := &scenario{backend: backend}
	s.cat = gen.Catalog(c.T, backend, gen.CatOpt{MinTables: 1, MaxTables: 3, MaxCols: 4, ExtraIndexes: 1})
	s.run = tool.Suggest{Backend: backend, Examine: gen.Chance(c.T, "examine", 40)}
	if gen.Chance(c.T, "index", 40) {
		s.run.Indexes = []string{gen.IndexText(c.T, s.cat)}
	}
	return s
}

// exec runs the command and judges what arrived at the server.
func (s *scenario) exec(c *vt.C) (srv *fakedb.Server, err error) {
	c.Input("backend: %s\nschema:\n%squery: %q\nas text: %s\nwith-examine: %v -i %q", s.backend, s.cat, s.run.Query, s.run.Query, s.run.Examine, s.run.Indexes)
	srv = tool.NewServer(s.backend, s.cat.Clone())
	srv.SQL = s.run.Query
	defer srv.Close()
	s.run.Output = tool.Scratch("c30.html")
	defer os.Remove(s.run.Output)
	err = tool.Run(srv, s.run)
	for i, st := range srv.Log {
		mine := false
		switch st.Kind {
		case "create", "drop":
			mine = true // index examination: C01 judges these
		}
		if mine {
			continue
		}
		if why := changes(s.backend == "mysql", st.SQL); why != "" {
			c.Fatalf("statement %d sent to the server changes data or schema, %s: %s\n(the run ended with: %v)", i, why, st.SQL, err)
		}
	}
	now := srv.Cat.IndexSnapshot()
	if err == nil && !reflect.DeepEqual(now, srv.Initial) {
		c.Fatalf("the schema is another one after the run: %v, was %v", now, srv.Initial)
	}
	if err != nil {
		if _, e := os.Stat(s.run.Output); e == nil && len(srv.Log) == 0 {
			c.Fatalf("a report was written although the query was refused: %v", err)
		}
	}
	return
}

func randomCase(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 2).Draw(t, "case") {
	case 0:
		return s
	case 1:
		return strings.ToLower(s)
	}
	m := rapid.Uint64().Draw(t, "mask")
	b := []byte(strings.ToLower(s))
	for i := range b {
		if m>>(uint(i)%64)&1 == 1 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

func blank(t *rapid.T, mysql bool) string {
	xs := []string{" ", "  ", "\n", "\t", "\r\n", " /* c */ ", " -- c\n", "/**/ ", " /* ; */ ", " -- ; SELECT 1\n"}
	if mysql {
		xs = append(xs, " # c\n", " #;\n")
	} else {
		xs = append(xs, " /* a /* b */ c */ ", " --c\n")
	}
	return gen.Pick(t, "blank", xs...)
}

// statement draws a statement that does something other than reading. kw marks are separated by single blanks,
// which are replaced by other white space and comments afterwards.
func statement(c *vt.C, s *scenario) (string, string) {
	t := c.T
	tb := s.cat.Tables[rapid.IntRange(0, len(s.cat.Tables)-1).Draw(t, "table")]
	col := tb.Columns[rapid.IntRange(0, len(tb.Columns)-1).Draw(t, "col")].Name
	name := tb.Name
	switch rapid.IntRange(0, 3).Draw(t, "naming") {
	case 0:
		name = gen.Quote(s.backend, name)
	case 1:
		name = tool.Schema(s.backend) + "." + name
	}
	where := gen.Pick(t, "where", "", " WHERE "+col+" = 1", " WHERE "+col+" IN ( SELECT "+col+" FROM "+name+" )")
	type form struct{ label, sql string }
	fs := []form{
		{"delete", "DELETE FROM " + name + where},
		{"update", "UPDATE " + name + " SET " + col + " = 1" + where},
		{"insert", "INSERT INTO " + name + " ( " + col + " ) VALUES ( 1 )"},
		{"insert-select", "INSERT INTO " + name + " ( " + col + " ) SELECT " + col + " FROM " + name + where},
		{"truncate", "TRUNCATE TABLE " + name},
		{"drop", "DROP TABLE " + name},
		{"drop-if", "DROP TABLE IF EXISTS " + name},
		{"create", "CREATE TABLE zz ( a int )"},
		{"create-as", "CREATE TABLE zz AS SELECT " + col + " FROM " + name},
		{"create-index", "CREATE INDEX zz ON " + name + " ( " + col + " )"},
		{"create-view", "CREATE VIEW zz AS SELECT " + col + " FROM " + name},
		{"alter", "ALTER TABLE " + name + " ADD COLUMN zz int"},
		{"set", "SET a = 1"},
		{"begin", "BEGIN"},
		{"rollback", "ROLLBACK"},
		{"commit", "COMMIT"},
		{"prepare", "PREPARE p AS DELETE FROM " + name},
		{"execute", "EXECUTE p"},
		{"explain", "EXPLAIN SELECT " + col + " FROM " + name},
		{"explain-analyze-delete", "EXPLAIN ANALYZE DELETE FROM " + name},
		{"analyze", "ANALYZE " + name},
		{"grant", "GRANT SELECT ON " + name + " TO u"},
		{"call", "CALL f ( )"},
	}
	if s.backend == "mysql" {
		fs = append(fs,
			form{"replace", "REPLACE INTO " + name + " ( " + col + " ) VALUES ( 1 )"},
			form{"insert-set", "INSERT INTO " + name + " SET " + col + " = 1"},
			form{"upsert", "INSERT INTO " + name + " ( " + col + " ) VALUES ( 1 ) ON DUPLICATE KEY UPDATE " + col + " = 2"},
			form{"delete-join", "DELETE " + name + " FROM " + name + " JOIN " + name + " AS b ON true"},
			form{"with-delete", "WITH q AS ( SELECT 1 ) DELETE FROM " + name},
			form{"with-update", "WITH q AS ( SELECT 1 ) UPDATE " + name + " SET " + col + " = 1"},
			form{"rename", "RENAME TABLE " + name + " TO zz"},
			form{"load", "LOAD DATA INFILE 'x' INTO TABLE " + name},
			form{"do", "DO SLEEP ( 1 )"},
			form{"kill", "KILL 1"},
			form{"lock", "LOCK TABLES " + name + " WRITE"},
			form{"show", "SHOW TABLES"},
			form{"use", "USE zz"},
			form{"desc", "DESC " + name},
			form{"executable comment", "/*! DELETE FROM " + name + " */"},
			form{"executable comment", "/*!50000 DELETE */ FROM " + name},
			form{"optimize", "OPTIMIZE TABLE " + name},
			form{"flush", "FLUSH TABLES"},
		)
	} else {
		fs = append(fs,
			form{"delete-returning", "DELETE FROM " + name + where + " RETURNING " + col},
			form{"delete-using", "DELETE FROM " + name + " USING " + name + " AS b"},
			form{"update-from", "UPDATE " + name + " SET " + col + " = 1 FROM " + name + " AS b"},
			form{"upsert", "INSERT INTO " + name + " ( " + col + " ) VALUES ( 1 ) ON CONFLICT DO NOTHING"},
			form{"with-delete-select", "WITH d AS ( DELETE FROM " + name + where + " RETURNING * ) SELECT * FROM d"},
			form{"with-delete-select", "WITH d AS ( DELETE FROM " + name + where + " RETURNING " + col + " ) SELECT " + col + " FROM " + name},
			form{"with-update-select", "WITH d AS ( UPDATE " + name + " SET " + col + " = 1 RETURNING * ) SELECT * FROM d"},
			form{"with-insert-select", "WITH d AS ( INSERT INTO " + name + " ( " + col + " ) VALUES ( 1 ) RETURNING * ) SELECT * FROM d"},
			form{"with-delete-inner", "SELECT " + col + " FROM ( WITH d AS ( DELETE FROM " + name + " RETURNING * ) SELECT * FROM d ) AS x"},
			form{"with-select-delete", "WITH q AS ( SELECT 1 ) DELETE FROM " + name},
			form{"select-into", "SELECT * INTO zz FROM " + name},
			form{"select-into", "SELECT " + col + " INTO TEMP zz FROM " + name},
			form{"merge", "MERGE INTO " + name + " USING " + name + " AS b ON true WHEN MATCHED THEN DELETE"},
			form{"copy", "COPY " + name + " FROM stdin"},
			form{"do", "DO $$ BEGIN DELETE FROM " + name + " ; END $$"},
			form{"lock", "LOCK TABLE " + name},
			form{"vacuum", "VACUUM " + name},
			form{"reindex", "REINDEX TABLE " + name},
			form{"declare", "DECLARE c CURSOR FOR SELECT 1"},
			form{"notify", "NOTIFY c"},
			form{"listen", "LISTEN c"},
			form{"show", "SHOW TABLES"},
			form{"explain-paren", "EXPLAIN ( ANALYZE ) DELETE FROM " + name},
			form{"comment", "COMMENT ON TABLE " + name + " IS 'x'"},
			form{"bracketed", "SELECT * FROM [ DELETE FROM " + name + " RETURNING " + col + " ]"},
		)
	}
	f := fs[rapid.IntRange(0, len(fs)-1).Draw(t, "form")]
	return f.label, f.sql
}

// spaced writes a statement with other white space, comments and letter case.
func spaced(c *vt.C, mysql bool, sql string) string {
	var o []string
	for _, w := range strings.Split(sql, " ") {
		if strings.ToUpper(w) == w && gen.IsWord(w) {
			w = randomCase(c.T, w)
		}
		o = append(o, w)
	}
	if rapid.IntRange(0, 2).Draw(c.T, "spacing") > 0 {
		return strings.Join(o, " ")
	}
	var sb strings.Builder
	for i, w := range o {
		if i > 0 {
			sb.WriteString(blank(c.T, mysql))
		}
		sb.WriteString(w)
	}
	return sb.String()
}

func selectOf(c *vt.C, s *scenario) string { return gen.SimpleQuery(c.T, s.backend, s.cat) }

// TestOther: a statement other than SELECT is refused, and nothing of it reaches the server.
func TestOther(t *testing.T) {
	vt.Check(t, "other", 4000, func(c *vt.C) {
		s := draw(c, gen.Pick(c.T, "backend", "mysql", "postgres"))
		my := s.backend == "mysql"
		label, sql := statement(c, s)
		sql = spaced(c, my, sql)
		if gen.Chance(c.T, "lead", 30) {
			sql = blank(c.T, my) + sql
		}
		shape := "alone"
		switch rapid.IntRange(0, 5).Draw(c.T, "shape") {
		case 0:
			shape, sql = "after a SELECT", selectOf(c, s)+gen.Pick(c.T, "sep", ";", " ; ", ";\n")+sql
		case 1:
			shape, sql = "before a SELECT", sql+gen.Pick(c.T, "sep", ";", " ; ", ";\n")+selectOf(c, s)
		case 2:
			shape, sql = "after an empty statement", gen.Pick(c.T, "sep", ";", " ; ", ";;")+sql
		}
		sql += gen.Pick(c.T, "tail", "", "", ";", " ; ", "\n", " -- c", "; -- c\n")
		s.run.Query = sql
		c.Class(s.backend + "/" + label)
		c.Class(shape)
		srv, err := s.exec(c)
		c.NonTrivial(s.backend + sql)
		if err == nil {
			c.Fatalf("the run succeeded")
		}
		if len(srv.Log) > 0 {
			c.Fatalf("the query is not a SELECT, but the server was sent %d statements: %q...", len(srv.Log), srv.Log[0].SQL)
		}
	})
}

// TestPieces: texts made of pieces that hide and reveal quotes, comments and ends of statements. Whatever the tool makes of
// them, no statement may arrive at the server that the server would read as anything but one reading statement.
func TestPieces(t *testing.T) {
	vt.Check(t, "pieces", 20000, func(c *vt.C) {
		s := draw(c, gen.Pick(c.T, "backend", "mysql", "postgres"))
		my := s.backend == "mysql"
		tb := s.cat.Tables[0]
		col := gen.Quote(s.backend, tb.Columns[0].Name)
		from := " FROM " + gen.Quote(s.backend, tb.Name)
		atoms := []string{"'", "''", `"`, `""`, "\\", "\\'", "--", "-- ", "/*", "*/", "/*/", "\n", " ", ";", "; DELETE" + from + " ", "1", "x", "'a'", ", ", "E'", "e'\\", "$$", "$a$", "b'", "N'", "x'", "U&'", "(", ")", " AND ", "||", "%", "'\n'", "\r", "#", "*"}
		if my {
			atoms = append(atoms, "`", "``", "/*!", "/*!50000 ", "/*+", "_utf8'", "@", "@'", "@`", "\\\"", "\\`", "--\t", "*/*")
		} else {
			atoms = append(atoms, "$1", "$b", "$é$", "--\r", "::text", "/*/*", "*/*/", "E'\\''", "'::", `U&"`, "\\\\")
		}
		body := func(label string, max int) string {
			var sb strings.Builder
			for i := rapid.IntRange(1, max).Draw(c.T, label+"n"); i > 0; i-- {
				sb.WriteString(atoms[rapid.IntRange(0, len(atoms)-1).Draw(c.T, label)])
			}
			return sb.String()
		}
		// A frame: opening and closing of something that may hide a second statement.
		type frame struct{ open, shut string }
		frames := []frame{{"'", "'"}, {`"`, `"`}, {"/*", "*/"}, {"-- ", "\n"}, {"--", "\n"}, {"", ""}, {"#", "\n"}}
		if my {
			frames = append(frames, frame{"`", "`"}, frame{"/*!", "*/"}, frame{"/*!50000", "*/"}, frame{"_utf8'", "'"}, frame{"x'", "'"}, frame{"N'", "'"})
		} else {
			frames = append(frames, frame{"E'", "'"}, frame{"$$", "$$"}, frame{"$a$", "$a$"}, frame{"b'", "'"}, frame{"x'", "'"}, frame{"U&'", "'"}, frame{`U&"`, `"`}, frame{"/*/*", "*/*/"}, frame{"B'", "'"}, frame{"X'", "'"}, frame{"e'", "'"})
		}
		var sb strings.Builder
		sb.WriteString("SELECT " + col)
		switch rapid.IntRange(0, 2).Draw(c.T, "place") {
		case 0:
			sb.WriteString(from + " WHERE " + col + " = ")
		case 1:
			sb.WriteString(" , ")
		}
		f := frames[rapid.IntRange(0, len(frames)-1).Draw(c.T, "frame")]
		sb.WriteString(f.open)
		sb.WriteString(body("a", 3))
		if rapid.Bool().Draw(c.T, "hide") {
			sb.WriteString(f.shut + "; DELETE" + from + " " + f.open)
		} else {
			sb.WriteString("; DELETE" + from + " ")
		}
		sb.WriteString(body("b", 3))
		sb.WriteString(f.shut)
		if rapid.Bool().Draw(c.T, "more") {
			sb.WriteString(body("c", 3))
		}
		s.run.Query = sb.String()
		if !my && strings.Contains(s.run.Query, "#--") {
			vt.Exclude("hash-before-comment")
			return
		}
		sts, ok := statements(my, s.run.Query)
		srv, err := s.exec(c)
		switch {
		case !ok:
			c.Class("unreadable for the server")
		case len(sts) > 1:
			c.Class("several statements")
			c.NonTrivial(s.backend + s.run.Query)
		default:
			c.Class("one statement")
		}
		c.ClassIf(len(srv.Log) > 0, s.backend+" sent")
		_ = err
	})
}

// TestKnown shows the finding hash-before-comment.
func TestKnown(t *testing.T) {
	vt.Check(t, "hash_before_comment", 5, func(c *vt.C) {
		cat := &fakedb.Catalog{Tables: []*fakedb.Table{{Schema: "public", Name: "users", Columns: []fakedb.Column{{Name: "id"}, {Name: "name"}}}}}
		sql := fmt.Sprintf("SELECT id FROM users WHERE id #--'\n%d; DELETE FROM users --'", rapid.IntRange(0, 9).Draw(c.T, "n"))
		c.Input("sql: %s", sql)
		srv := tool.NewServer("postgres", cat)
		defer srv.Close()
		out := tool.Scratch("c30.html")
		defer os.Remove(out)
		_ = tool.Run(srv, tool.Suggest{Backend: "postgres", Query: sql, Output: out})
		for _, st := range srv.Log {
			if changes(false, st.SQL) != "" {
				vt.KnownFinding("hash-before-comment")
				return
			}
		}
	})
}

// TestSelect: a SELECT is executed once for its plan and, with --with-examine, once for every time that is measured; all
// other statements read the catalogue or belong to the examination.
func TestSelect(t *testing.T) {
	vt.Check(t, "select", 1500, func(c *vt.C) {
		s := draw(c, gen.Pick(c.T, "backend", tool.Backends...))
		sql := selectOf(c, s)
		my := s.backend == "mysql"
		if gen.Chance(c.T, "lead", 40) {
			sql = blank(c.T, my) + sql
		}
		sql += gen.Pick(c.T, "tail", "", "", ";", " ;", "\n", " -- c", "; -- c\n")
		s.run.Query = sql
		srv, err := func() (*fakedb.Server, error) {
			if s.backend != "hasura" {
				return s.exec(c)
			}
			c.Input("backend: hasura\nschema:\n%squery: %s", s.cat, sql)
			srv := tool.NewServer(s.backend, s.cat.Clone())
			srv.SQL = sql
			defer srv.Close()
			r := s.run
			r.Query = "query { x { id } }"
			r.Output = tool.Scratch("c30.html")
			defer os.Remove(r.Output)
			return srv, tool.Run(srv, r)
		}()
		if srv.Harness != nil {
			c.Skip(srv.Harness.Error())
		}
		if err != nil {
			if len(s.run.Indexes) == 0 {
				c.Fatalf("a SELECT was refused: %v", err)
			}
			c.Class("index refused")
			return
		}
		explains, runs, creates := 0, 0, 0
		for i, st := range srv.Log {
			switch st.Kind {
			case "explain":
				explains++
			case "run":
				runs++
				if s.backend != "hasura" && st.SQL != sql {
					c.Fatalf("statement %d is not the query: %q", i, st.SQL)
				}
			case "create":
				creates++
			case "drop", "catalog":
			default:
				c.Fatalf("statement %d belongs to nothing the run has to do: %s", i, st.SQL)
			}
		}
		if explains != 1 {
			c.Fatalf("the query was explained %d times", explains)
		}
		want := 0
		if s.run.Examine && creates > 0 {
			want = creates + 1
		}
		if runs != want && !(s.run.Examine && creates == 0 && runs == 1) {
			c.Fatalf("the query was run %d times, with %d indexes examined", runs, creates)
		}
		c.ClassIf(creates > 0, "examined")
		c.NonTrivial(s.backend + sql)
	})
}

// TestLexer checks the reference lexer itself against texts whose reading the manuals spell out.
func TestLexer(t *testing.T) {
	for _, x := range []struct {
		my   bool
		text string
		n    int // -1: unreadable
	}{
		{false, `SELECT 'a;b'`, 1}, {false, `SELECT 'a\'; DELETE FROM t --'`, 2}, {true, `SELECT 'a\'; DELETE FROM t -- '`, 1},
		{false, `SELECT E'a\'; DELETE FROM t --'`, 1}, {false, `SELECT $$;$$`, 1}, {false, `SELECT $a$;$$;$a$;`, 1}, {false, `SELECT a$$;$$ $$`, 2},
		{false, `/* /* */ ; */ SELECT 1`, 1}, {true, `/* /* */ SELECT 1; SELECT 2`, 2}, {true, "SELECT 1 # ;\n", 1}, {false, "SELECT 1 # 2;", 1},
		{true, "SELECT 1--1;SELECT 2", 2}, {true, "SELECT `;`", 1}, {false, `SELECT ";"`, 1}, {false, `SELECT 'a`, -1}, {true, "/*! DELETE FROM t */", 1},
		{false, ";;", 0}, {true, `SELECT "a\";"`, 1}, {true, "SELECT 'it''s;'", 1},
	} {
		got, ok := statements(x.my, x.text)
		if x.n < 0 && ok || x.n >= 0 && (!ok || len(got) != x.n) {
			t.Fatalf("%q: %v %v, want %d statements", x.text, got, ok, x.n)
		}
	}
}
