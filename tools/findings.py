#!/usr/bin/env python3
"""Writes known_findings.jsonl."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [  # property, commit subject, what failed
 ("C02", "report no index candidates instead of failing when a query has none", "a query without any index candidate ended in an SQL error instead of a report"),
 ("C02", "treat GraphQL errors in a 200 response from Hasura as a failed query", "a Hasura query failing with GraphQL errors in a 200 response was measured as if it had run"),
 ("C06", "keep every table of a comma separated FROM for PostgreSQL", "FROM a, b kept only the last table, so its columns got no candidates or an error"),
 ("C09", "return error for UNION, VALUES and parenthesized SELECT instead of panic", "UNION, VALUES and (SELECT ..) crashed the PostgreSQL parser"),
 ("C09", "accept window frame having start bound only", "ROWS 2 PRECEDING crashed the run"),
 ("C09", "return error for query without statement instead of panic", "an empty or comment-only query crashed the run"),
 ("C06", "do not resolve columns with the output of subquery inside fields", "output names of a scalar subquery captured names of the outer query"),
 ("C06", "do not treat columns in WHERE or ON as output of subquery", "columns compared inside a derived table were taken for columns it exposes"),
 ("C06", "resolve columns of every outer query from nested subquery, inner one first", "subqueries two or more levels deep could not see, or saw the wrong, outer columns"),
 ("C05", "enumerate index columns without permuting referenced columns", "a query referring to ten or more columns of a table used up all memory"),
 ("C07", "find MySQL columns having upper case letters in their names", "a MySQL column with upper case letters was reported as not found"),
 ("C03", "reject index text having line breaks instead of ignoring a part of it", "an -i text with a line break was partly ignored"),
 ("C06", "expose constant columns of a subquery to the outer query", "SELECT d.one FROM (SELECT 1 AS one, ..) d failed with 'no column found'"),
 ("C06", "accept output alias in GROUP BY, HAVING and ORDER BY", "ORDER BY / GROUP BY of an output alias failed with 'no column found'"),
 ("C06", "collect columns in DISTINCT ON", "columns used in DISTINCT ON only were not part of any candidate"),
 ("C06", "visit ORDER BY of functions and OFFSET to find subqueries", "a subquery inside a window's or aggregate's ORDER BY was ignored"),
 ("C07", "collect columns having COLLATE for MySQL", "a MySQL column followed by COLLATE was ignored"),
 ("C07", "collect columns in ORDER BY of GROUP_CONCAT for MySQL", "columns in GROUP_CONCAT's ORDER BY were ignored"),
 ("C10", "accept functional indexes of MySQL", "a MySQL table with a functional index (COLUMN_NAME is NULL) made every run fail"),
 ("C10", "recognize existing indexes on quoted columns of PostgreSQL", "an existing PostgreSQL index on a column whose name needs quoting was not recognized, so it was suggested again"),
 ("C10", "do not take a PostgreSQL index on columns of different letter case for an existing one", "an index on \"a\" hid the candidate for the different PostgreSQL column \"A\""),
 ("C12", "end the title of a MySQL plan step at its first marker", "a colon, join or on inside a condition or literal (a timestamp, say) became part of a MySQL step's title"),
 ("C12", "read a MySQL plan step's figures only from the end of its line", "a literal like '(cost=1 rows=2)' was shown as a MySQL step's estimate"),
 ("C12", "take the table of a MySQL plan step from its operation, not from text inside a condition", "a literal like 'x on y' made y the table of a MySQL step"),
 ("C13", "keep the last plan step when no summary follows", "the last step of a plan without summary (every Hasura plan) was not shown"),
 ("C13", "take the table of a PostgreSQL plan step from its operation, not from text inside a condition", "a literal like 'x on y' made y the table of a PostgreSQL step"),
 ("C15", "aggregate Performance Insights' loads by hours of UTC", "with a start in a zone off the full hour (2022-08-01T00:00:00+05:30) every load was missing from the report"),
 ("C14", "read all pages of RDS instances", "instances beyond the first page of RDS' list (100) were silently left out"),
 ("C15", "read all pages of Performance Insights' metrics", "metrics beyond the first page of an answer were silently left out"),
 ("C16", "accept span attributes without value", "a span with an empty attribute value crashed the run"),
 ("C17", "count only the time within a span when a child runs longer than it", "a call running longer than its caller (or after it) made the caller's own time wrap around, so the wrong service was named as the most time-consuming"),
 ("C17", "ignore children without duration when counting the time within a span", "a call recorded as ending before its start added time to its caller"),
 ("C18", "do not take a trace ending before its start for the slowest one", "a root span ending before its start was listed as the slowest trace"),
 ("C19", "report a Jaeger trace once even when several time ranges find it", "a trace with spans on both sides of a half-hour border was listed twice"),
 ("C20", "quote values in connection string of PostgreSQL", "a user, password or database containing ' or \\ broke the connection string, or let the value set other connection parameters"),
 ("C20", "let DB_PARAM_TEXT choose sslmode of PostgreSQL", "sslmode=require in DB_PARAM_TEXT was silently overridden by sslmode=disable"),
 ("C20", "run queries of PostgreSQL in the schema given by DB_SEARCH_PATH", "DB_SEARCH_PATH was not the search path of the connection, so the query was explained and examined in another schema than the catalogue read"),
 ("C21", "send numbers in GraphQL variables without losing digits", "variables such as 9007199254740993 were sent to Hasura as another number, and 1e400 was refused"),
 ("C22", "log the place of the result when output is an absolute path", "with an absolute output path the program named a place where no report is"),
 ("C23", "escape names of the -i option in the command to examine indexes", "a table or column name with a quote, blank or $ broke the command to examine indexes"),
 ("C23", "escape database and SQL in the command shown for Performance Insights", "a SQL with a double quote, $ or backtick made the shown command run another query, or a command inside the SQL"),
 ("C23", "name the mysql subcommand in the command shown for Performance Insights", "the shown command was gr db suggest -o .., which only prints the help"),
 ("C23", "quote names in the SQL shown to add an index", "the shown statement did not add the index when a name is a reserved word or has upper case letters (PostgreSQL), or needs quoting"),
 ("C24", "highlight the line of a bar on browsers without event.path", "pointing at a bar failed on browsers without the removed event.path"),
 ("C24", "escape plan text in tooltips of the explain chart", "a < in a plan's text became markup in the tooltip"),
 ("C24", "show the time of a PostgreSQL plan step whose first row took 0.000 ms", "a step whose first row took 0.000 ms was shown without its time"),
 ("C25", "keep the path of JAEGER_UI_URL in links to traces", "links lost the base path of JAEGER_UI_URL"),
 ("C26", "show loads of databases and SQLs named like a member of Object", "a database or SQL named constructor made the page fail"),
 ("C26", "place the empty bars before a SQL's first load at their own hours", "the empty bars before a SQL's first load were all placed at the wrong hour"),
 ("C26", "show no data for a tokenized SQL without plain SQL instead of failing", "clicking a tokenized SQL without plain SQL made the page fail"),
 ("C26", "escape SQL in tooltips of Performance Insights", "a < in a SQL became markup in the tooltip"),
 ("C27", "show no reduction instead of NaN when a query took 0 ms before and after", "a query that took 0 ms before and after was shown with a reduction of NaN%"),
 ("C29", "show no reduction on the console instead of NaN when a query took 0 ms before and after", "with --verbose a query that took 0 ms before and after was printed with a reduction of NaN%"),
 ("C28", "open the report of an examination which had no index to examine", "a run with --with-examine but no index to examine wrote a report whose page fails to open"),
 ("C30", "refuse a query other than SELECT before it is executed", "gr db suggest mysql|postgres -q 'DELETE FROM users' deleted the rows (EXPLAIN ANALYZE executes) and only then refused the query; so did a second statement after ;"),
 ("C30", "end a comment at carriage return as PostgreSQL does", "text after a carriage return in a comment was hidden from the tool but executed by PostgreSQL: SELECT id FROM users --<CR>; DELETE FROM users"),
 ("C30", "return error for a parenthesized join before executing the query", "FROM (a JOIN b ON ..) made the collector of scopes recurse endlessly (hidden until then by an earlier check)"),
 ("C10", "accept the schema of the connection in a query instead of public", "with DB_SEARCH_PATH=app a table of public was taken for the one of app, and app.users was refused"),
 ("C06", "keep letter case of quoted tables, aliases and USING columns of PostgreSQL", "PostgreSQL tables such as \"Users\" were unknown, and the aliases \"U\" and u were the same"),
 ("C13", "take a plan row with a quoted name containing a colon for a plan row", "a PostgreSQL plan step on an index or table named like \"idx: a\" was shown as a detail of the step before it"),
]
KNOWN = [  # property, id, what
 ("C06", "derived-table-pseudo-columns", "a column mentioned unaliased in the ORDER BY, GROUP BY, HAVING or DISTINCT ON of a derived table is taken for a column the derived table exposes: in SELECT email FROM (SELECT id FROM users ORDER BY email) d JOIN todos ON d.id = todos.id with todos.email, the name email may be attributed to users"),
 ("C07", "mysql-using-ignored", "columns named only in JOIN .. USING (..) of a MySQL query get no candidate: SELECT a.name FROM users a JOIN todos b USING (user_id)"),
 ("C07", "mysql-upper-case-table", "a MySQL table whose name has upper case letters (on a server with case-sensitive table names, the default on Linux) is refused as an unknown table: SELECT name FROM AuditLog"),
 ("C08", "quoted-names-joined-over-newline", "PostgreSQL: a quoted name followed by a line break and another quoted name is read as one name by the SQL parser GravityR uses (auxten/postgresql-parser): SELECT \"u\".\"id\" FROM \"users\"<newline>\"u\" fails with unknown table usersu"),
 ("C09", "candidate-explosion", "a query comparing ten or more columns of one table in WHERE/ON makes the tool enumerate every ordering of every subset of them, which uses up the memory instead of giving a report or an error"),
 ("C30", "hash-before-comment", "PostgreSQL: #-- is the operator # and a comment, but the SQL parser GravityR uses (auxten/postgresql-parser) reads the operator #- and a minus, so a quote in that comment hides further statements from it: SELECT id FROM users WHERE id #--'<newline>1; DELETE FROM users --' is sent to the server"),
]
exec(open(os.path.join(ROOT, "tools", "more_findings.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "more_findings.py")) else None
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
sub = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
with open(os.path.join(ROOT, "known_findings.jsonl"), "w") as f:
    for p, s, w in FIXED:
        c = sub["fix: " + s]
        f.write(json.dumps({"property": p, "status": "fixed", "commit": c, "what": w, "entry": "fixed: property=%s %s %s" % (p, c, w)}) + "\n")
    for p, i, w in KNOWN:
        f.write(json.dumps({"property": p, "status": "known", "id": i, "what": w}) + "\n")
missing = set(s[5:] for s in sub if s.startswith("fix: ")) - set(s for _, s, _ in FIXED)
if missing:
    print("not recorded:", missing)
