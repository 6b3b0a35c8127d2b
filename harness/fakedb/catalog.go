// Package fakedb simulates the three databases the tool talks to (MySQL and PostgreSQL through
// database/sql, PostgreSQL through Hasura's HTTP API): it owns a catalogue of tables and indexes,
// evaluates the catalogue queries and DDL it is sent, logs every statement, and can be told to
// fail any of them.
package fakedb

import (
	"fmt"
	"sort"
	"strings"
)

type Column struct {
	Name    string
	Dropped bool // PostgreSQL only: attisdropped
}

type Index struct {
	Name    string
	Columns []string
	Primary bool
	Unique  bool
}

type Table struct {
	Schema  string
	Name    string
	Kind    string // "r" (default), "v", "m", "p"
	Columns []Column
	Indexes []Index
}

func (t *Table) PK() []string {
	for _, i := range t.Indexes {
		if i.Primary {
			return i.Columns
		}
	}
	return nil
}

func (t *Table) Has(col string, fold bool) bool {
	for _, c := range t.Columns {
		if c.Dropped {
			continue
		}
		if c.Name == col || fold && strings.EqualFold(c.Name, col) {
			return true
		}
	}
	return false
}

func (t *Table) ColNames() []string {
	var r []string
	for _, c := range t.Columns {
		if !c.Dropped {
			r = append(r, c.Name)
		}
	}
	return r
}

type Catalog struct {
	Tables []*Table
}

func (c *Catalog) Find(schema, name string) *Table {
	for _, t := range c.Tables {
		if t.Schema == schema && t.Name == name {
			return t
		}
	}
	return nil
}

func (c *Catalog) String() string {
	var sb strings.Builder
	for _, t := range c.Tables {
		fmt.Fprintf(&sb, "%s.%s", t.Schema, t.Name)
		if t.Kind != "" && t.Kind != "r" {
			fmt.Fprintf(&sb, "[%s]", t.Kind)
		}
		sb.WriteString("(")
		for i, col := range t.Columns {
			if i > 0 {
				sb.WriteString(", ")
			}
			sb.WriteString(col.Name)
			if col.Dropped {
				sb.WriteString(" DROPPED")
			}
		}
		sb.WriteString(")")
		for _, i := range t.Indexes {
			k := "KEY"
			if i.Primary {
				k = "PRIMARY"
			}
			fmt.Fprintf(&sb, " %s %s(%s)", k, i.Name, strings.Join(i.Columns, ","))
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

// IndexSnapshot is the sorted list of all indexes, for before/after comparison.
func (c *Catalog) IndexSnapshot() []string {
	var r []string
	for _, t := range c.Tables {
		for _, i := range t.Indexes {
			r = append(r, fmt.Sprintf("%s.%s:%s(%s) primary=%v unique=%v", t.Schema, t.Name, i.Name, strings.Join(i.Columns, ","), i.Primary, i.Unique))
		}
	}
	sort.Strings(r)
	return r
}

func (c *Catalog) Clone() *Catalog {
	n := &Catalog{}
	for _, t := range c.Tables {
		nt := *t
		nt.Columns = append([]Column(nil), t.Columns...)
		nt.Indexes = nil
		for _, i := range t.Indexes {
			ni := i
			ni.Columns = append([]string(nil), i.Columns...)
			nt.Indexes = append(nt.Indexes, ni)
		}
		n.Tables = append(n.Tables, &nt)
	}
	return n
}

type row map[string]interface{}

// relation produces the rows of a catalogue relation, or nil, false.
func (c *Catalog) relation(schema, name string, mysql bool) ([]string, []row, bool) {
	schema, name = strings.ToLower(schema), strings.ToLower(name)
	if mysql {
		if schema != "information_schema" {
			return nil, nil, false
		}
		switch name {
		case "columns":
			cols := []string{"table_catalog", "table_schema", "table_name", "column_name", "ordinal_position", "column_key", "data_type", "is_nullable"}
			var rows []row
			for _, t := range c.Tables {
				for i, col := range t.Columns {
					key := ""
					for _, ix := range t.Indexes {
						for p, ic := range ix.Columns {
							if !strings.EqualFold(ic, col.Name) {
								continue
							}
							switch {
							case ix.Primary:
								key = "PRI"
							case key == "PRI":
							case p == 0 && ix.Unique && len(ix.Columns) == 1:
								key = "UNI"
							case p == 0 && key == "":
								key = "MUL"
							}
						}
					}
					rows = append(rows, row{"table_catalog": "def", "table_schema": t.Schema, "table_name": t.Name, "column_name": col.Name,
						"ordinal_position": int64(i + 1), "column_key": key, "data_type": "int", "is_nullable": "YES"})
				}
			}
			return cols, scramble(rows), true
		case "statistics":
			cols := []string{"table_catalog", "table_schema", "table_name", "non_unique", "index_schema", "index_name", "seq_in_index", "column_name", "is_visible", "expression", "sub_part", "index_type"}
			var rows []row
			for _, t := range c.Tables {
				for _, ix := range t.Indexes {
					for p, ic := range ix.Columns {
						nu := int64(1)
						if ix.Primary || ix.Unique {
							nu = 0
						}
						var name, expr interface{} = ic, nil
						if IsExpr(ic) {
							name, expr = nil, ic
						}
						rows = append(rows, row{"table_catalog": "def", "table_schema": t.Schema, "table_name": t.Name, "non_unique": nu,
							"index_schema": t.Schema, "index_name": ix.Name, "seq_in_index": int64(p + 1), "column_name": name, "is_visible": "YES",
							"expression": expr, "sub_part": nil, "index_type": "BTREE"})
					}
				}
			}
			return cols, scramble(rows), true
		case "tables":
			cols := []string{"table_catalog", "table_schema", "table_name", "table_type"}
			var rows []row
			for _, t := range c.Tables {
				rows = append(rows, row{"table_catalog": "def", "table_schema": t.Schema, "table_name": t.Name, "table_type": "BASE TABLE"})
			}
			return cols, rows, true
		}
		return nil, nil, false
	}

	if schema != "" && schema != "pg_catalog" {
		return nil, nil, false
	}
	nsOid := map[string]int64{}
	for _, t := range c.Tables {
		if _, ok := nsOid[t.Schema]; !ok {
			nsOid[t.Schema] = int64(1000 + len(nsOid))
		}
	}
	tOid := func(i int) int64 { return int64(20000 + 100*i) }
	iOid := func(i, j int) int64 { return int64(20000 + 100*i + 1 + j) }
	switch name {
	case "pg_namespace":
		var names []string
		for n := range nsOid {
			names = append(names, n)
		}
		sort.Strings(names)
		var rows []row
		for _, n := range names {
			rows = append(rows, row{"oid": nsOid[n], "nspname": n})
		}
		return []string{"oid", "nspname"}, rows, true
	case "pg_class":
		var rows []row
		for i, t := range c.Tables {
			k := t.Kind
			if k == "" {
				k = "r"
			}
			rows = append(rows, row{"oid": tOid(i), "relname": t.Name, "relnamespace": nsOid[t.Schema], "relkind": k})
			for j, ix := range t.Indexes {
				rows = append(rows, row{"oid": iOid(i, j), "relname": ix.Name, "relnamespace": nsOid[t.Schema], "relkind": "i"})
			}
		}
		return []string{"oid", "relname", "relnamespace", "relkind"}, scramble(rows), true
	case "pg_attribute":
		var rows []row
		for i, t := range c.Tables {
			for n, sys := range []string{"ctid", "xmin", "tableoid"} {
				rows = append(rows, row{"attrelid": tOid(i), "attname": sys, "attnum": int64(-1 - n), "attisdropped": false})
			}
			for n, col := range t.Columns {
				name := col.Name
				if col.Dropped {
					name = fmt.Sprintf("........pg.dropped.%d........", n+1)
				}
				rows = append(rows, row{"attrelid": tOid(i), "attname": name, "attnum": int64(n + 1), "attisdropped": col.Dropped})
			}
			for j, ix := range t.Indexes {
				for n, col := range ix.Columns {
					rows = append(rows, row{"attrelid": iOid(i, j), "attname": col, "attnum": int64(n + 1), "attisdropped": false})
				}
			}
		}
		return []string{"attrelid", "attname", "attnum", "attisdropped"}, scramble(rows), true
	case "pg_index":
		var rows []row
		for i, t := range c.Tables {
			for j, ix := range t.Indexes {
				var key []int64
				for _, ic := range ix.Columns {
					if IsExpr(ic) {
						key = append(key, 0)
						continue
					}
					for n, col := range t.Columns {
						if col.Name == ic && !col.Dropped {
							key = append(key, int64(n+1))
						}
					}
				}
				rows = append(rows, row{"indexrelid": iOid(i, j), "indrelid": tOid(i), "indkey": key, "indisprimary": ix.Primary, "indisunique": ix.Unique || ix.Primary,
					"indisvalid": true, "indisready": true, "indislive": true, "indnatts": int64(len(key)), "indnkeyatts": int64(len(key))})
			}
		}
		return []string{"indexrelid", "indrelid", "indkey", "indisprimary", "indisunique", "indisvalid", "indisready", "indislive", "indnatts", "indnkeyatts"}, scramble(rows), true
	}
	return nil, nil, false
}

// scramble returns the rows in a fixed but unhelpful order: a server promises no order without ORDER BY.
func scramble(rows []row) []row {
	var a, b []row
	for i, r := range rows {
		if i%2 == 0 {
			a = append(a, r)
		} else {
			b = append([]row{r}, b...)
		}
	}
	return append(b, a...)
}

// indexDef simulates pg_get_indexdef(oid, column, pretty).
func (c *Catalog) indexDef(oid, col int64) interface{} {
	for i, t := range c.Tables {
		for j, ix := range t.Indexes {
			if int64(20000+100*i+1+j) == oid {
				if col >= 1 && int(col) <= len(ix.Columns) {
					return QuoteIdent(ix.Columns[col-1])
				}
				return ""
			}
		}
	}
	return nil
}

// IsExpr tells whether an index part is an expression rather than a column.
func IsExpr(part string) bool { return strings.ContainsAny(part, "()") }

// QuoteIdent quotes a column name when PostgreSQL would; expressions are returned as they are.
func QuoteIdent(s string) string {
	if IsExpr(s) {
		return s
	}
	plain := s != "" && !(s[0] >= '0' && s[0] <= '9')
	for i := 0; i < len(s); i++ {
		b := s[i]
		if !(b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z') {
			plain = false
		}
	}
	switch s {
	case "order", "group", "user", "select", "table", "column", "desc", "limit", "where", "end", "left":
		plain = false
	}
	if plain {
		return s
	}
	return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
}
