package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"sync"
)

// DBState is the abstract database behind the MySQL, PostgreSQL and Hasura stand-ins.
type DBState struct {
	mu   sync.Mutex
	sc   *Scenario
	temp []Index
}

func newDBState(sc *Scenario) *DBState { return &DBState{sc: sc} }

func (d *DBState) live() []string {
	d.mu.Lock()
	defer d.mu.Unlock()
	var r []string
	for _, t := range d.temp {
		r = append(r, t.Table+":"+t.Name)
	}
	return r
}

func (d *DBState) create(ev Event, mysql bool) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, t := range append(append([]Index{}, d.temp...), d.sc.Server.Indexes...) {
		if t.Name == ev.Name && (!mysql || t.Table == ev.Table) {
			return fmt.Errorf("index %s already exists", ev.Name)
		}
	}
	d.temp = append(d.temp, Index{Table: ev.Table, Name: ev.Name, Cols: ev.Cols})
	return nil
}

func (d *DBState) drop(ev Event, mysql bool) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	for i, t := range d.temp {
		if t.Name == ev.Name && (!mysql || t.Table == ev.Table) {
			d.temp = append(append([]Index{}, d.temp[:i]...), d.temp[i+1:]...)
			return nil
		}
	}
	for _, t := range d.sc.Server.Indexes {
		if t.Name == ev.Name && (!mysql || t.Table == ev.Table) {
			return nil // a pre-existing index is really dropped; the event shows it
		}
	}
	return fmt.Errorf("index %s does not exist", ev.Name)
}

const sqlNull = "\x00NULL"

type resultSet struct {
	cols []string
	typ  []string // text, bool, textarray
	rows [][]string
}

var (
	reSelList = regexp.MustCompile(`(?is)^\s*SELECT\s+(.*?)\s+FROM\s+(?:pg_class|pg_index|pg_attribute|pg_namespace|pg_catalog\.\w+|information_schema\.\w+)`)
	reOrderBy = regexp.MustCompile(`(?is)\bORDER\s+BY\s+([^()]*?);?\s*$`)
	reAlias   = regexp.MustCompile(`(?is)\bAS\s+"?` + "`?" + `(\w+)"?` + "`?" + `\s*$`)
	reLastId  = regexp.MustCompile(`(?is)(\w+)"?` + "`?" + `\s*(?:ASC)?\s*$`)
)

func splitTop(s string) []string {
	var res []string
	depth, last := 0, 0
	for i, c := range s {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ',':
			if depth == 0 {
				res = append(res, s[last:i])
				last = i + 1
			}
		}
	}
	return append(res, s[last:])
}

// outName gives the name of a select item and the catalog attribute it denotes.
func outName(item string) (name, attr string) {
	item = strings.TrimSpace(item)
	expr := item
	if m := reAlias.FindStringSubmatchIndex(item); m != nil {
		name = item[m[2]:m[3]]
		expr = strings.TrimSpace(item[:m[0]])
	} else if m := reLastId.FindStringSubmatch(item); m != nil {
		name = m[1]
	}
	l := strings.ToLower(expr)
	if m := regexp.MustCompile(`^(?:coalesce|ifnull)\((.*),\s*''\)$`).FindStringSubmatch(l); m != nil {
		_, a := outName(m[1])
		return name, a + "!"
	}
	switch {
	case strings.Contains(l, "pg_get_indexdef"), strings.Contains(l, "array(") || strings.Contains(l, "array_agg"):
		attr = "columns"
	case strings.Contains(l, "indisprimary"):
		attr = "is_pk"
	case strings.Contains(l, "attname"), strings.HasSuffix(l, "column_name"):
		attr = "column"
	case strings.HasSuffix(l, "column_key"):
		attr = "column_key"
	case strings.HasSuffix(l, "index_name"), l == "i.relname":
		attr = "index"
	case strings.HasSuffix(l, "table_name"), strings.HasSuffix(l, "relname"):
		attr = "table"
	case strings.HasSuffix(l, "seq_in_index"):
		attr = "seq"
	case strings.HasSuffix(l, "ordinal_position"), strings.HasSuffix(l, "attnum"):
		attr = "pos"
	default:
		attr = "?" + l
	}
	return
}

// catalog answers a catalog query: it honours the schema and table filters, the view and system column
// filters, the select list and ORDER BY of the query; what the query does not order comes out shuffled.
func (d *DBState) catalog(kind, text string, values []string, dialect string) (*resultSet, error) {
	low := strings.ToLower(text)
	m := reSelList.FindStringSubmatch(text)
	if m == nil {
		return nil, fmt.Errorf("stand-in: unsupported catalog query")
	}
	in := map[string]bool{}
	for _, v := range values {
		in[v] = true
	}
	hasSchema := strings.Contains(low, "table_schema =") || strings.Contains(low, "nspname =") || strings.Contains(low, "table_schema=") || strings.Contains(low, "nspname=") || strings.Contains(low, "nspname in") || strings.Contains(low, "table_schema in")
	hasTable := regexp.MustCompile(`(?is)(relname|table_name)\s*(in\b|=)`).MatchString(text)
	hasKind := regexp.MustCompile(`(?is)relkind\s*(=|in)`).MatchString(text) || dialect == "mysql"
	hasNum := regexp.MustCompile(`(?is)attnum\s*(>=|>)`).MatchString(text) || dialect == "mysql"
	leftJoin := regexp.MustCompile(`(?is)LEFT\s+(OUTER\s+)?JOIN\s+pg_index`).MatchString(text)
	primOnly := regexp.MustCompile(`(?is)LEFT\s+(OUTER\s+)?JOIN\s+pg_index\s+ON[^W]*indisprimary`).MatchString(text)
	var rows []map[string]string
	schemaOK := func(s string) bool { return !hasSchema || in[s] }
	eq := func(a string) bool {
		if !hasTable {
			return true
		}
		if in[a] {
			return true
		}
		if dialect == "mysql" { // information_schema compares without regard to case
			for v := range in {
				if strings.EqualFold(v, a) {
					return true
				}
			}
		}
		return false
	}
	b2s := func(b bool) string {
		if b {
			return "t"
		}
		return "f"
	}
	if kind == "columns" {
		for _, t := range d.sc.Server.Tables {
			if !schemaOK(t.Schema) || !eq(t.Name) {
				continue
			}
			if t.Kind == "v" && hasKind && dialect != "mysql" {
				continue
			}
			for n, c := range t.Cols {
				if c.Sys && hasNum {
					continue
				}
				row := map[string]string{"table": t.Name, "column": c.Name, "pos": fmt.Sprintf("%06d", n), "is_pk": b2s(c.PK), "column_key": ""}
				if c.PK {
					row["column_key"] = "PRI"
				}
				if dialect != "mysql" {
					// one row per index that contains the column, as the outer join on pg_index gives
					got := false
					for _, ix := range d.sc.Server.Indexes {
						if ix.Schema != t.Schema || ix.Table != t.Name {
							continue
						}
						for _, ic := range ix.Cols {
							if ic == c.Name && (!primOnly || ix.Primary) {
								r2 := map[string]string{}
								for k, v := range row {
									r2[k] = v
								}
								r2["is_pk"] = b2s(ix.Primary)
								rows = append(rows, r2)
								got = true
								break
							}
						}
					}
					if got {
						continue
					}
					if !leftJoin && strings.Contains(low, "join pg_index") {
						continue
					}
					if c.PK { // primary key without an explicit index entry
						row["is_pk"] = "t"
					}
				}
				rows = append(rows, row)
			}
		}
	} else {
		for _, ix := range d.sc.Server.Indexes {
			if !schemaOK(ix.Schema) || !eq(ix.Table) {
				continue
			}
			if dialect == "mysql" {
				for n, c := range ix.Cols {
					if strings.HasPrefix(c, "(") { // an expression has no column name
						c = sqlNull
					}
					rows = append(rows, map[string]string{"table": ix.Table, "index": ix.Name, "column": c, "seq": fmt.Sprintf("%06d", n+1)})
				}
			} else {
				var qs []string
				for _, c := range ix.Cols {
					if strings.HasPrefix(c, "(") {
						if strings.Contains(low, "pg_get_indexdef") {
							qs = append(qs, `"`+strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(strings.TrimSuffix(c[1:], ")"))+`"`)
						}
						continue
					}
					if regexp.MustCompile(`\A[a-z_][a-z0-9_]*\z`).MatchString(c) {
						qs = append(qs, c)
					} else {
						// PG_GET_INDEXDEF quotes such an identifier, and the array quotes the result again
						id := c
						if strings.Contains(low, "pg_get_indexdef") {
							id = `"` + strings.ReplaceAll(c, `"`, `""`) + `"`
						}
						qs = append(qs, `"`+strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(id)+`"`)
					}
				}
				rows = append(rows, map[string]string{"table": ix.Table, "index": ix.Name, "columns": "{" + strings.Join(qs, ",") + "}"})
			}
		}
	}
	rnd := rand.New(rand.NewSource(d.sc.Server.Shuffle + 7))
	rnd.Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
	if om := reOrderBy.FindStringSubmatch(text); om != nil {
		var keys []string
		for _, k := range splitTop(om[1]) {
			_, a := outName(k)
			keys = append(keys, a)
		}
		sort.SliceStable(rows, func(i, j int) bool {
			for _, k := range keys {
				if rows[i][k] != rows[j][k] {
					return rows[i][k] < rows[j][k]
				}
			}
			return false
		})
	}
	rs := &resultSet{}
	for _, it := range splitTop(m[1]) {
		n, a := outName(it)
		if strings.HasPrefix(a, "?") {
			return nil, fmt.Errorf("stand-in: unsupported select item %q", it)
		}
		rs.cols = append(rs.cols, n)
		switch a {
		case "is_pk":
			rs.typ = append(rs.typ, "bool")
		case "columns":
			rs.typ = append(rs.typ, "textarray")
		default:
			rs.typ = append(rs.typ, "text")
		}
		for i := range rows {
			if len(rs.rows) <= i {
				rs.rows = append(rs.rows, nil)
			}
			v := rows[i][strings.TrimSuffix(a, "!")]
			if strings.HasSuffix(a, "!") && v == sqlNull {
				v = ""
			}
			rs.rows[i] = append(rs.rows[i], v)
		}
	}
	return rs, nil
}

// literals extracts the string literals of a query with inlined parameters.
func literals(s string, dialect string) []string {
	var res []string
	for _, m := range regexp.MustCompile(`'((?:[^'\\]|''|\\.)*)'`).FindAllStringSubmatch(s, -1) {
		v := strings.ReplaceAll(m[1], "''", "'")
		if dialect == "mysql" {
			v = strings.NewReplacer(`\0`, "\x00", `\n`, "\n", `\r`, "\r", `\Z`, "\x1a", `\'`, "'", `\"`, `"`, `\\`, `\`).Replace(v)
		}
		res = append(res, v)
	}
	return res
}
