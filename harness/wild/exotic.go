package wild

import (
	"strings"

	"pgregory.net/rapid"

	"verif/harness/fakedb"
	"verif/harness/gen"
)

// Templates of expressions seldom seen; each ~ is replaced by another expression, each ^ by a subquery.
var pgExprs = []string{
	"(~).*", "(ROW(~, ~)).*", "((~, ~) AS a, b).a", "(~).id", "((~)).name", "(ROW(~)).f1", "~[1]", "(~)[~]", "~[1:2]", "(~)[~:~]", "ARRAY[~, ~]", "ARRAY[[1], [~]]", "ARRAY[]", "ARRAY(^)", "ARRAY ^",
	"ROW(~, ~)", "ROW()", "(~, ~)", "~::INT", "~::VARCHAR(3)", "~::INT[]", "CAST(~ AS NUMERIC(3, 2))", "~:::TEXT", "~ COLLATE \"C\"", "~ COLLATE de", "INTERVAL '1 day' + ~", "DATE '2020-01-01'", "TIMESTAMP '2020-01-01'",
	"~ AT TIME ZONE ~", "~ IS DISTINCT FROM ~", "~ IS NOT DISTINCT FROM ~", "~ IS UNKNOWN", "~ IS NOT TRUE", "~ IS NULL", "~ ISNULL", "~ NOTNULL", "~ IS OF (INT, TEXT)", "~ BETWEEN SYMMETRIC ~ AND ~", "~ NOT BETWEEN ~ AND ~",
	"(~, ~) OVERLAPS (~, ~)", "EXTRACT(year FROM ~)", "EXTRACT_DURATION(~)", "SUBSTRING(~ FROM ~ FOR ~)", "SUBSTRING(~ FOR 1)", "POSITION(~ IN ~)", "TRIM(LEADING 'x' FROM ~)", "TRIM(~)", "OVERLAY(~ PLACING ~ FROM 1 FOR 2)",
	"IF(~, ~, ~)", "IFNULL(~, ~)", "IFERROR(~, ~)", "IFERROR(~, ~, 'x')", "ISERROR(~)", "NULLIF(~, ~)", "COALESCE(~)", "COALESCE(~, ~, ~)", "GREATEST(~, ~)", "B'101'", "X'41'", "e'a'", "$1", "@1", "NULL", "TRUE", "DEFAULT", "MAXVALUE",
	"NOT ~", "-~", "+~", "~~", "|/~", "~ || ~", "~ ^ ~", "~ # ~", "~ & ~", "~ << ~", "~ // ~", "~ -> 'a'", "~ ->> 'a'", "~ #> '{a}'", "~ #>> '{a}'", "~ ? 'a'", "~ ?| ~", "~ ?& ~", "~ @> ~", "~ <@ ~", "~ ~ 'x'", "~ ~* 'x'", "~ !~ 'x'",
	"~ LIKE ~", "~ NOT ILIKE ~", "~ SIMILAR TO ~", "~ LIKE ~ ESCAPE 'x'", "~ IN (~)", "~ IN (~, ~)", "~ NOT IN ^", "~ IN ^", "(~, ~) IN ^", "~ = ANY ^", "~ = ANY (~)", "~ > ALL (ARRAY[~])", "~ = SOME ^", "EXISTS ^", "NOT EXISTS ^", "^", "(^)", "(^).id",
	"COUNT(*)", "COUNT(DISTINCT ~)", "COUNT(DISTINCT (~, ~))", "SUM(ALL ~)", "string_agg(~, ',' ORDER BY ~ DESC)", "COUNT(*) FILTER (WHERE ~)", "array_agg(~ ORDER BY ~, ~)", "RANK() OVER ()", "RANK() OVER (PARTITION BY ~ ORDER BY ~)", "SUM(~) OVER w", "SUM(~) OVER (w ORDER BY ~)",
	"SUM(~) OVER (ORDER BY ~ ROWS ~ PRECEDING)", "SUM(~) OVER (ORDER BY ~ RANGE BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW)", "SUM(~) OVER (ROWS BETWEEN ~ PRECEDING AND ~ FOLLOWING)", "SUM(~) OVER (ORDER BY ~ GROUPS BETWEEN 1 PRECEDING AND 2 FOLLOWING EXCLUDE TIES)",
	"CASE WHEN ~ THEN ~ END", "CASE ~ WHEN ~ THEN ~ ELSE ~ END", "CASE ~ WHEN ~ THEN ~ WHEN ~ THEN ~ END", "f()", "f(~)", "pg_catalog.f(~)", "f(~, VARIADIC ~)", "percentile_cont(~) WITHIN GROUP (ORDER BY ~)", "CURRENT_DATE", "CURRENT_TIME(3)", "CURRENT_USER", "LOCALTIME",
	"users", "users.*", "u.*", "*", "public.users.name", "db.public.users.name", "a.b.c.d.e", "\"Users\".\"Id\"", "xmin", "oid", "ctid", "1.5e-3", "9223372036854775808", "'a''b'", "''",
	"CAST(~ AS INT4) + ~", "row_to_json((^))", "coalesce(json_agg(\"root\"), '[]')", "(SELECT row_to_json((SELECT \"_e\" FROM (SELECT ~ AS \"id\") AS \"_e\")))", "((((~))))", "GROUPING(~)", "ROLLUP(~, ~)", "CUBE(~)", "GROUPING SETS ((~), ())",
}

var myExprs = []string{
	"ROW(~, ~)", "(~, ~) = (~, ~)", "(~, ~) IN ((~, ~))", "CAST(~ AS CHAR(3))", "CAST(~ AS UNSIGNED ARRAY)", "CONVERT(~, CHAR)", "CONVERT(~ USING utf8mb4)", "BINARY ~", "~ COLLATE utf8mb4_bin", "_utf8mb4'x'", "INTERVAL 1 DAY + ~", "DATE_ADD(~, INTERVAL ~ HOUR)", "~ - INTERVAL '1:2' HOUR_MINUTE",
	"~ <=> ~", "~ IS NULL", "~ IS NOT TRUE", "~ IS UNKNOWN", "~ BETWEEN ~ AND ~", "~ NOT BETWEEN ~ AND ~", "EXTRACT(YEAR_MONTH FROM ~)", "SUBSTRING(~, 1, 2)", "SUBSTRING(~ FROM ~ FOR ~)", "POSITION(~ IN ~)", "TRIM(LEADING ~ FROM ~)", "TRIM(~)", "GET_FORMAT(DATE, 'USA')",
	"IF(~, ~, ~)", "IFNULL(~, ~)", "NULLIF(~, ~)", "COALESCE(~, ~)", "b'101'", "x'41'", "0x41", "NULL", "TRUE", "DEFAULT", "DEFAULT(id)", "VALUES(id)", "MAXVALUE", "?", "@a", "@a := ~", "@@global.x", "@@version",
	"NOT ~", "!~", "-~", "+~", "~ || ~", "~ ^ ~", "~ XOR ~", "~ DIV ~", "~ MOD ~", "~ << ~", "~ -> '$.a'", "id->'$.a'", "id->>'$.a'", "~ MEMBER OF (~)", "JSON_EXTRACT(~, '$')", "JSON_ARRAY(~, ~)", "JSON_ARRAYAGG(~)", "JSON_OBJECTAGG(~, ~)",
	"~ LIKE ~", "~ NOT LIKE ~ ESCAPE 'x'", "~ REGEXP ~", "~ RLIKE ~", "~ SOUNDS LIKE ~", "~ IN (~)", "~ IN (~, ~)", "~ NOT IN ^", "~ IN ^", "(~, ~) IN ^", "~ = ANY ^", "~ > ALL ^", "~ = SOME ^", "EXISTS ^", "NOT EXISTS ^", "^", "(^)",
	"COUNT(*)", "COUNT(DISTINCT ~)", "COUNT(DISTINCT ~, ~)", "GROUP_CONCAT(~)", "GROUP_CONCAT(DISTINCT ~, ~ ORDER BY ~ DESC, ~ SEPARATOR '|')", "STD(~)", "BIT_OR(~)", "ANY_VALUE(~)", "RANK() OVER ()", "RANK() OVER (PARTITION BY ~ ORDER BY ~)", "SUM(~) OVER w", "SUM(~) OVER (w ORDER BY ~)",
	"SUM(~) OVER (ORDER BY ~ ROWS 2 PRECEDING)", "SUM(~) OVER (ORDER BY ~ RANGE BETWEEN INTERVAL 1 DAY PRECEDING AND CURRENT ROW)", "LEAD(~, 1, ~) OVER (ORDER BY ~)", "NTH_VALUE(~, 2) FROM FIRST RESPECT NULLS OVER (ORDER BY ~)", "LAG(~) IGNORE NULLS OVER ()",
	"CASE WHEN ~ THEN ~ END", "CASE ~ WHEN ~ THEN ~ ELSE ~ END", "f()", "f(~)", "db.f(~)", "MATCH (id) AGAINST (~)", "MATCH (id, name) AGAINST ('a' IN BOOLEAN MODE)", "MATCH (users.id) AGAINST ('a' WITH QUERY EXPANSION)", "CURRENT_TIMESTAMP(3)", "NOW()", "CURRENT_USER", "UTC_DATE", "LAST_INSERT_ID()", "CHAR(~ USING utf8)", "WEIGHT_STRING(~ AS CHAR(1))",
	"TIMESTAMPADD(MINUTE, ~, ~)", "TIMESTAMPDIFF(DAY, ~, ~)", "DATE '2020-01-01'", "TIMESTAMP '2020-01-01 00:00:00'", "{d '2020-01-01'}", "users.*", "u.*", "*", "appdb.users.name", "a.b.c.d", "`Users`.`Id`", "1.5e-3", "'a''b'", "\"x\"", "'a' 'b'", "((((~))))", "GROUPING(~)", "NEXT VALUE FOR s", "NEXTVAL(s)",
}

var pgTables = []string{"users", "todos", "users u", "users AS u", "users AS u(a, b)", "ONLY users", "users *", "public.users", "(users)", "(users JOIN todos ON ~)", "(users u JOIN todos t ON ~) AS j", "^ AS s", "^ s(a, b)", "LATERAL ^ AS l", "^", "f(~) AS g", "f(~) WITH ORDINALITY AS g(a, n)", "LATERAL f(~)", "ROWS FROM (f(~), g(~)) AS r",
	"(VALUES (~, ~), (~, ~)) AS v(a, b)", "(TABLE users) AS t", "[SHOW TABLES]", "[1 AS x]", "users@primary", "users TABLESAMPLE SYSTEM (1)", "users JOIN todos ON ~", "users u LEFT JOIN todos t ON ~", "users JOIN todos USING (id)", "users NATURAL JOIN todos", "users FULL JOIN todos ON ~", "users CROSS JOIN todos", "users INNER HASH JOIN todos ON ~", "users JOIN ^ AS q ON ~", "users JOIN LATERAL ^ AS q ON TRUE", "todos t JOIN (users u CROSS JOIN todos x) ON ~"}
var myTables = []string{"users", "todos", "users u", "users AS u", "appdb.users", "(users)", "(users, todos)", "(users u JOIN todos t ON ~)", "^ AS s", "^ s(a, b)", "LATERAL ^ AS l", "^", "users PARTITION (p0)", "users USE INDEX (a)", "users FORCE INDEX FOR JOIN (a)", "DUAL", "JSON_TABLE('[]', '$[*]' COLUMNS (a INT PATH '$')) AS j", "(VALUES ROW(1)) AS v",
	"users JOIN todos ON ~", "users u LEFT JOIN todos t ON ~", "users RIGHT OUTER JOIN todos ON ~", "users JOIN todos USING (id)", "users NATURAL LEFT JOIN todos", "users CROSS JOIN todos", "users STRAIGHT_JOIN todos ON ~", "users JOIN ^ AS q ON ~", "users u JOIN (todos t JOIN users x ON ~) ON ~", "{ OJ users LEFT JOIN todos ON ~ }", "users AS OF TIMESTAMP '2020-01-01'", "users TABLESAMPLE SYSTEM (1)"}

type ex struct {
	t     *rapid.T
	mysql bool
	cat   *fakedb.Catalog
	left  int
}

func (e *ex) leaf() string {
	tb := e.cat.Tables[rapid.IntRange(0, len(e.cat.Tables)-1).Draw(e.t, "lt")]
	col := tb.Columns[rapid.IntRange(0, len(tb.Columns)-1).Draw(e.t, "lc")].Name
	if !gen.IsWord(col) {
		col = "id"
	}
	return gen.Pick(e.t, "leaf", "id", "name", "users.id", "u.name", "t.id", "1", "'x'", "NULL", col, tb.Name+"."+col)
}

func (e *ex) fill(tpl string) string {
	var sb strings.Builder
	// "~~" at the start and " ~ '" are operators of PostgreSQL, everything else is a place
	for i := 0; i < len(tpl); i++ {
		switch {
		case tpl[i] == '^' && !(i > 0 && i+1 < len(tpl) && tpl[i-1] == ' ' && tpl[i+1] == ' ' && strings.HasPrefix(tpl, "~ ^ ~")):
			sb.WriteString("(" + e.sel() + ")")
		case tpl[i] == '~' && strings.HasPrefix(tpl[i:], "~ '") && i > 0, tpl[i] == '~' && i > 0 && tpl[i-1] == '!', tpl[i] == '~' && i+1 < len(tpl) && tpl[i+1] == '*', tpl == "~~" && i == 0:
			sb.WriteByte('~')
		case tpl[i] == '~':
			sb.WriteString(e.expr())
		default:
			sb.WriteByte(tpl[i])
		}
	}
	return sb.String()
}

func (e *ex) expr() string {
	e.left--
	if e.left < 0 || gen.Chance(e.t, "leafnow", 45) {
		return e.leaf()
	}
	if e.mysql {
		return e.fill(rapid.SampledFrom(myExprs).Draw(e.t, "my"))
	}
	return e.fill(rapid.SampledFrom(pgExprs).Draw(e.t, "pg"))
}

func (e *ex) sel() string {
	e.left -= 3
	if e.left < 0 {
		return "SELECT " + e.leaf() + " FROM users"
	}
	s := "SELECT " + gen.Pick(e.t, "dist", "", "", "", "DISTINCT ", "ALL ") + e.expr()
	if gen.Chance(e.t, "as", 30) {
		s += " AS " + gen.Pick(e.t, "asn", "x", "id", "users", "\"q\"", "`q`")
	}
	for gen.Chance(e.t, "more", 35) {
		s += ", " + e.expr()
	}
	tabs := pgTables
	if e.mysql {
		tabs = myTables
	}
	if gen.Chance(e.t, "from", 92) {
		s += " FROM " + e.fill(rapid.SampledFrom(tabs).Draw(e.t, "from1"))
		if gen.Chance(e.t, "comma", 15) {
			s += ", " + e.fill(rapid.SampledFrom(tabs).Draw(e.t, "from2"))
		}
	}
	add := func(p int, f func() string) {
		if gen.Chance(e.t, "clause", p) {
			s += f()
		}
	}
	add(60, func() string { return " WHERE " + e.expr() })
	add(20, func() string { return " GROUP BY " + e.expr() })
	add(15, func() string { return " HAVING " + e.expr() })
	add(6, func() string { return " WINDOW w AS (PARTITION BY " + e.expr() + ")" })
	add(6, func() string {
		return gen.Pick(e.t, "setop", " UNION ", " UNION ALL ", " EXCEPT ", " INTERSECT ") + gen.Pick(e.t, "setr", "SELECT 1", "VALUES (1)", "(SELECT id FROM users)", "TABLE users")
	})
	add(25, func() string {
		return " ORDER BY " + e.expr() + gen.Pick(e.t, "dir", "", " ASC", " DESC", " NULLS FIRST", ", "+e.leaf())
	})
	add(20, func() string {
		return gen.Pick(e.t, "lim", " LIMIT 1", " LIMIT ALL", " LIMIT 1 OFFSET 2", " OFFSET 3 ROWS", " LIMIT 1, 2", " FETCH FIRST ROW ONLY", " FETCH NEXT 3 ROWS ONLY", " LIMIT ?", " LIMIT "+e.leaf(), " OFFSET 1 LIMIT 2", " LIMIT NULL")
	})
	add(6, func() string {
		return gen.Pick(e.t, "lock", " FOR UPDATE", " FOR SHARE OF users NOWAIT", " LOCK IN SHARE MODE", " FOR UPDATE SKIP LOCKED", " INTO @a", " PROCEDURE ANALYSE()")
	})
	return s
}

// Exotic draws a statement made of seldom used syntax, most of which the parsers accept.
func Exotic(t *rapid.T, mysql bool, cat *fakedb.Catalog) string {
	e := &ex{t: t, mysql: mysql, cat: cat, left: rapid.IntRange(2, 14).Draw(t, "size")}
	return e.sel()
}
