// Package wild generates query texts that go beyond what the suggestion rules promise to understand:
// unsupported clauses, damaged statements, token soup, deep nesting, arbitrary bytes.
package wild

import (
	"strings"

	"pgregory.net/rapid"

	"verif/harness/fakedb"
	"verif/harness/gen"
	"verif/harness/sqlgen"
)

var words = strings.Fields(`SELECT FROM WHERE GROUP BY ORDER HAVING LIMIT OFFSET UNION ALL EXCEPT INTERSECT JOIN LEFT RIGHT FULL OUTER CROSS NATURAL
 INNER ON USING AS DISTINCT AND OR NOT IN IS NULL TRUE EXISTS ANY BETWEEN LIKE CASE WHEN THEN ELSE END CAST WITH RECURSIVE VALUES ROW TABLE OVER PARTITION
 ROWS RANGE PRECEDING FOLLOWING CURRENT LATERAL FOR UPDATE INTO INSERT DELETE SET EXPLAIN ANALYZE ARRAY INTERVAL WINDOW FILTER COLLATE DEFAULT
 ( ) ( ) ( ) , , ; . * + - / = < > <> || :: @ $1 ? '' 'x' "x" 1 2.5 -- /* */ /*! # \ users todos id name email user_id a.id users.id t.* a b count(*) max(id) `)

var Selects = []string{
	"SELECT id FROM users UNION SELECT id FROM todos",
	"SELECT id FROM users WHERE name = 'a' UNION ALL (SELECT id FROM todos ORDER BY id) LIMIT 3",
	"(SELECT id FROM users WHERE name = 'x')",
	"((SELECT id FROM users))",
	"WITH c AS (SELECT id, name FROM users WHERE email = 'a') SELECT c.id FROM c WHERE c.name = 'b'",
	"WITH users AS (SELECT id FROM todos) SELECT id FROM users WHERE id = 1",
	"WITH RECURSIVE c(n) AS (SELECT 1 UNION ALL SELECT n+1 FROM c WHERE n < 5) SELECT n FROM c",
	"VALUES (1, 2), (3, 4)",
	"VALUES ROW(1, 2)",
	"TABLE users",
	"SELECT * FROM (VALUES (1, 'a')) AS v(id, name) WHERE v.id = 1",
	"SELECT v.a FROM (SELECT id, name FROM users) AS v(a, b) WHERE v.b = 'x'",
	"SELECT a.name FROM users a JOIN todos b USING (id)",
	"SELECT a.name FROM users a JOIN todos b USING (id, name) WHERE b.name = 'x'",
	"SELECT name FROM users NATURAL JOIN todos",
	"SELECT u.id FROM users u FULL OUTER JOIN todos t ON u.id = t.id",
	"SELECT id FROM users WINDOW w AS (PARTITION BY name)",
	"SELECT SUM(id) OVER w FROM users WINDOW w AS (PARTITION BY name ORDER BY email)",
	"SELECT name FROM users GROUP BY ROLLUP (name, email)",
	"SELECT name FROM users GROUP BY GROUPING SETS ((name), (email))",
	"SELECT name FROM users GROUP BY name WITH ROLLUP",
	"SELECT id FROM users FETCH FIRST 3 ROWS ONLY",
	"SELECT id FROM users LIMIT 1, 2",
	"SELECT id FROM users FOR UPDATE",
	"SELECT id INTO OUTFILE '/dev/null' FROM users",
	"SELECT id INTO x FROM users",
	"SELECT id FROM users WHERE id = ANY(ARRAY(SELECT id FROM todos))",
	"SELECT x.id FROM generate_series(1, 3) AS x(id)",
	"SELECT id FROM unnest(ARRAY[1,2]) AS id",
	"SELECT users.id, (users).name, (users).* FROM users",
	"SELECT users FROM users",
	"SELECT u FROM users u WHERE u IS NOT NULL",
	"SELECT ROW(id, name) FROM users",
	"SELECT id FROM public.users WHERE public.users.name = 'a'",
	"SELECT id FROM appdb.users WHERE appdb.users.name = 'a'",
	"SELECT id FROM other.users",
	"SELECT id FROM x.y.z.users",
	"SELECT no_such FROM users",
	"SELECT nope.id FROM users",
	"SELECT id FROM no_such_table WHERE id = 1",
	"SELECT id FROM users, todos WHERE id = 1",
	"SELECT id FROM users JOIN users ON users.id = users.id",
	"SELECT (SELECT id FROM users)",
	"SELECT 1",
	"SELECT 1; SELECT 2",
	"SELECT id FROM users; DROP TABLE users",
	"SELECT id FROM users WHERE id = 1;;",
	"INSERT INTO users(id) VALUES (1)",
	"INSERT INTO users SELECT * FROM todos",
	"UPDATE users SET name = 'a' WHERE id = 1",
	"DELETE FROM users WHERE id = 1",
	"CREATE INDEX x ON users(id)",
	"DROP TABLE users",
	"TRUNCATE users",
	"SET x = 1",
	"SHOW TABLES",
	"EXPLAIN SELECT id FROM users",
	"EXPLAIN ANALYZE SELECT id FROM users",
	"BEGIN",
	"CALL f(1)",
	"DO 1",
	"SELECT id FROM users TABLESAMPLE SYSTEM (10)",
	"SELECT id FROM ONLY users",
	"SELECT id FROM users PARTITION (p0) WHERE name = 'a'",
	"SELECT id FROM users USE INDEX (i) WHERE name = 'a'",
	"SELECT /*+ MAX_EXECUTION_TIME(1) */ id FROM users WHERE name = 'a'",
	"SELECT SQL_NO_CACHE id FROM users -- c\nWHERE name = 'a'",
	"SELECT id FROM users STRAIGHT_JOIN todos ON users.id = todos.id",
	"SELECT id FROM (users, todos) WHERE users.id = todos.id",
	"SELECT u.id FROM (users u JOIN todos t ON u.id = t.id)",
	"SELECT u.id FROM (users u JOIN todos t ON u.id = t.id) AS j",
	"SELECT MATCH(name) AGAINST ('a') FROM users WHERE MATCH(name, email) AGAINST ('b' IN BOOLEAN MODE)",
	"SELECT JSON_EXTRACT(name, '$.a') FROM users WHERE name->'$.a' = 1",
	"SELECT name->'a', name->>'b', name #> '{a}' FROM users WHERE name @> '{}'",
	"SELECT name[1], name[1:2] FROM users",
	"SELECT id FROM users WHERE (id, name) IN (SELECT id, name FROM todos)",
	"SELECT id FROM users WHERE (id, name) IN ((1, 'a'), (2, 'b'))",
	"SELECT CURRENT_TIMESTAMP, NOW(), CURRENT_USER FROM users",
	"SELECT id AT TIME ZONE 'utc' FROM users",
	"SELECT id FROM users WHERE id OVERLAPS name",
	"SELECT COUNT(*) FILTER (WHERE name = 'a') FROM users",
	"SELECT percentile_cont(0.5) WITHIN GROUP (ORDER BY id) FROM users",
	"SELECT string_agg(name, ',' ORDER BY email) FROM users",
	"SELECT GROUP_CONCAT(DISTINCT name ORDER BY email SEPARATOR '|') FROM users",
	"SELECT id FROM users WHERE name = $1 AND id = :a AND email = @b",
	"SELECT id FROM users WHERE name SIMILAR TO 'a' AND name ~* 'b' AND name !~ 'c'",
	"SELECT id FROM users WHERE id IN ()",
	"SELECT DISTINCT ON (name) id FROM users ORDER BY name, email",
	"SELECT ALL id FROM users",
	"SELECT FROM users",
	"SELECT * FROM users AS OF SYSTEM TIME '-1s'",
	"SELECT id FROM [SHOW TABLES]",
	"SELECT id FROM users@idx",
	"SELECT IF(id, name, email) FROM users",
	"SELECT IFERROR(id, name) FROM users",
	"SELECT id IS OF (INT) FROM users",
	"SELECT id::INT, CAST(name AS VARCHAR(3)), name:::TEXT FROM users",
	"SELECT DEFAULT FROM users",
	"SELECT b'101', x'41', 0x41, 1e5, .5, E'a\\n', U&'x', N'x', _utf8'x' FROM users",
	"SELECT GET_FORMAT(DATE, 'USA'), EXTRACT(YEAR FROM id), TRIM(BOTH 'x' FROM name), POSITION('a' IN name), SUBSTRING(name FROM 1 FOR 2) FROM users",
	"SELECT INTERVAL 1 DAY + id, DATE_SUB(id, INTERVAL id DAY) FROM users",
	"SELECT CONVERT(name USING utf8), CONVERT(id, CHAR) FROM users",
	"SELECT CHAR(77 USING utf8) FROM users",
	"SELECT ? FROM users WHERE id = ?",
	"SELECT @a := id FROM users",
	"SELECT @@version",
	"SELECT VALUES(id) FROM users",
	"SELECT id FROM users WHERE EXISTS (SELECT 1 FROM todos WHERE EXISTS (SELECT 1 FROM users u2 WHERE u2.id = todos.id AND u2.name = users.name))",
	"SELECT d.id FROM (SELECT u.id FROM users u UNION SELECT t.id FROM todos t) d WHERE d.id = 1",
	"SELECT d.* FROM (SELECT * FROM (SELECT * FROM users) x) d WHERE d.id = 1",
	"SELECT id FROM users WHERE id IN (SELECT id FROM todos UNION SELECT id FROM users)",
	"SELECT id FROM users WHERE id = (VALUES (1))",
	"SELECT LEAD(id) OVER (ORDER BY name ROWS BETWEEN id PRECEDING AND UNBOUNDED FOLLOWING) FROM users",
	"SELECT RANK() OVER (PARTITION BY name ORDER BY id GROUPS 2 PRECEDING) FROM users",
	"SELECT id FROM users ORDER BY id NULLS LAST, name USING >",
	"SELECT id FROM users LIMIT (SELECT COUNT(*) FROM todos) OFFSET (SELECT 1)",
	"SELECT id FROM users GROUP BY 1 ORDER BY 2 DESC",
	"SELECT id AS name FROM users ORDER BY name",
	"SELECT name AS id, id AS name FROM users WHERE name = 'a' GROUP BY id, name HAVING name > 'a'",
	"", " ", ";", "-- nothing", "/* nothing */", "/*", "'", "\"", "`", "\x00", "(", ")", "\\",
}

// Stmt draws a query text; what names the generator it came from.
func Stmt(t *rapid.T, mysql bool, cat *fakedb.Catalog) (text, what string) {
	g := sqlgen.New(t, mysql, cat)
	switch (rapid.IntRange(0, 13).Draw(t, "wild") + 10) % 14 {
	case 10, 11, 12, 13:
		return Exotic(t, mysql, cat), "exotic"
	case 0, 1:
		return fit(t, rapid.SampledFrom(Selects).Draw(t, "s"), cat), "listed"
	case 2:
		return damage(t, rapid.SampledFrom(Selects).Draw(t, "s"), cat), "listed, damaged"
	case 3:
		return g.Statement(), "well-formed"
	case 4, 5:
		return damage(t, g.Statement(), cat), "well-formed, damaged"
	case 6:
		n := rapid.IntRange(0, 30).Draw(t, "len")
		var p []string
		if gen.Chance(t, "selfirst", 60) {
			p = append(p, "SELECT")
		}
		for i := 0; i < n; i++ {
			p = append(p, rapid.SampledFrom(words).Draw(t, "w"))
		}
		return strings.Join(p, gen.Pick(t, "sep", " ", "", "\n", "\t")), "token soup"
	case 7:
		return nest(t), "nested"
	case 8:
		// two statements spliced at a token boundary
		a, b := g.Statement(), rapid.SampledFrom(Selects).Draw(t, "s2")
		ta, tb := tokens(a), tokens(b)
		i, j := rapid.IntRange(0, len(ta)).Draw(t, "i"), rapid.IntRange(0, len(tb)).Draw(t, "j")
		return strings.Join(ta[:i], "") + " " + strings.Join(tb[j:], ""), "spliced"
	}
	return rapid.StringN(0, 60, 200).Draw(t, "bytes"), "arbitrary text"
}

// fit replaces the listed statements' table names by ones of the catalogue now and then.
func fit(t *rapid.T, s string, cat *fakedb.Catalog) string {
	if gen.Chance(t, "sub", 40) {
		return strings.ReplaceAll(s, "users", cat.Tables[rapid.IntRange(0, len(cat.Tables)-1).Draw(t, "ft")].Name)
	}
	return s
}

func tokens(s string) []string {
	var r []string
	cur := ""
	cls := -1
	for _, ch := range s {
		k := 2
		if ch == ' ' || ch == '\n' || ch == '\t' {
			k = 0
		} else if ch == '_' || ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' {
			k = 1
		}
		if cls == k && k != 2 {
			cur += string(ch)
			continue
		}
		if cur != "" {
			r = append(r, cur)
		}
		cur, cls = string(ch), k
	}
	if cur != "" {
		r = append(r, cur)
	}
	return r
}

func damage(t *rapid.T, s string, cat *fakedb.Catalog) string {
	tk := tokens(s)
	n := rapid.IntRange(1, 4).Draw(t, "damages")
	for k := 0; k < n && len(tk) > 0; k++ {
		i := rapid.IntRange(0, len(tk)-1).Draw(t, "di")
		switch rapid.IntRange(0, 6).Draw(t, "dk") {
		case 0:
			tk = append(tk[:i:i], tk[i+1:]...)
		case 1:
			tk = append(tk[:i:i], append([]string{tk[i]}, tk[i:]...)...)
		case 2:
			j := rapid.IntRange(0, len(tk)-1).Draw(t, "dj")
			tk[i], tk[j] = tk[j], tk[i]
		case 3, 4:
			tk = append(tk[:i:i], append([]string{" ", rapid.SampledFrom(words).Draw(t, "dw"), " "}, tk[i:]...)...)
		case 5:
			tk = tk[:i]
		case 6:
			tk[i] = rapid.StringN(1, 3, 8).Draw(t, "ds")
		}
	}
	return strings.Join(tk, "")
}

func nest(t *rapid.T) string {
	d := rapid.IntRange(1, 400).Draw(t, "nest")
	r := strings.Repeat
	switch rapid.IntRange(0, 8).Draw(t, "nestkind") {
	case 0:
		return "SELECT id FROM users WHERE " + r("(", d) + "id = 1" + r(")", d)
	case 1:
		return "SELECT id FROM users WHERE " + r("NOT ", d) + "id = 1"
	case 2:
		return "SELECT id FROM users WHERE id = " + r("1 + ", d) + "id"
	case 3:
		d = d%12 + 1
		return "SELECT id FROM users WHERE id IN " + r("(SELECT id FROM todos WHERE id IN ", d) + "(1)" + r(")", d)
	case 4:
		d = d%12 + 1
		return "SELECT id FROM " + r("(SELECT id FROM ", d) + "users" + r(") AS x", d)
	case 5:
		return "SELECT id FROM users WHERE id IN (" + r("1, ", d) + "2)"
	case 6:
		return "SELECT " + r("ABS(", d) + "id" + r(")", d) + " FROM users"
	case 7:
		return "SELECT id FROM users WHERE " + r("id = 1 OR ", d) + "name = 'x'"
	}
	return "SELECT " + r("CASE WHEN id = 1 THEN ", d) + "id" + r(" END", d) + " FROM users"
}
