package main

// A small evaluator for the SELECT statements a program sends to the catalogs of MySQL and PostgreSQL, over a catalog
// built from the scenario. What a query does not order comes out shuffled.

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type val interface{} // nil, int64, bool, string, []val, vec
type vec []val       // a 0-based vector such as pg_index.indkey

type mtok struct {
	k string // id, qid, str, num, p, par
	v string
}

func mlex(s, dialect string) ([]mtok, error) {
	var r []mtok
	for i := 0; i < len(s); {
		c := s[i]
		isId := func(b byte) bool {
			return b == '_' || b == '$' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= 0x80
		}
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "--"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("comment")
			}
			i += j + 2
		case c == '\'' || c == '"' || c == '`':
			var b strings.Builder
			j, closed := i+1, false
			for j < len(s) {
				if s[j] == '\\' && dialect == "mysql" && c != '`' && j+1 < len(s) {
					e := s[j+1]
					switch e {
					case 'n':
						e = '\n'
					case 'r':
						e = '\r'
					case '0':
						e = 0
					case 'Z':
						e = 0x1a
					case 't':
						e = '\t'
					}
					b.WriteByte(e)
					j += 2
					continue
				}
				if s[j] == c {
					if j+1 < len(s) && s[j+1] == c {
						b.WriteByte(c)
						j += 2
						continue
					}
					closed = true
					break
				}
				b.WriteByte(s[j])
				j++
			}
			if !closed {
				return nil, fmt.Errorf("quote")
			}
			k := "qid"
			if c == '\'' || c == '"' && dialect == "mysql" {
				k = "str"
			}
			r = append(r, mtok{k, b.String()})
			i = j + 1
		case c == '$' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9':
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			r = append(r, mtok{"par", s[i+1 : j]})
			i = j
		case c == '?':
			r = append(r, mtok{"par", ""})
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			r = append(r, mtok{"num", s[i:j]})
			i = j
		case isId(c):
			j := i
			for j < len(s) && isId(s[j]) {
				j++
			}
			r = append(r, mtok{"id", s[i:j]})
			i = j
		default:
			n := 1
			for _, o := range []string{">=", "<=", "<>", "!=", "::", "||"} {
				if strings.HasPrefix(s[i:], o) {
					n = 2
				}
			}
			r = append(r, mtok{"p", s[i : i+n]})
			i += n
		}
	}
	return r, nil
}

type mex struct {
	op    string
	a     []*mex
	v     val
	names []string
	sub   *msel
	ord   []mord
	dist  bool
	text  string
}
type mord struct {
	e    *mex
	desc bool
}
type mitem struct {
	e    *mex
	as   string
	star string // "" no star, "*" all, else the alias
}
type mfrom struct {
	join  string // "", inner, left, cross, right
	table string
	fn    *mex
	sub   *msel
	as    string
	cols  []string
	ordn  bool
	on    *mex
}
type msel struct {
	dist   bool
	items  []mitem
	from   []mfrom
	where  *mex
	group  []*mex
	having *mex
	ord    []mord
	limit  int
}

type mparse struct {
	t   []mtok
	i   int
	par int
	d   string
}

type mfail struct{ e string }

func (p *mparse) fail(f string, a ...interface{}) { panic(mfail{fmt.Sprintf(f, a...)}) }
func (p *mparse) peek() mtok {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return mtok{"eof", ""}
}
func (p *mparse) kw(ws ...string) bool {
	for k, w := range ws {
		if p.i+k >= len(p.t) || p.t[p.i+k].k != "id" || !strings.EqualFold(p.t[p.i+k].v, w) {
			return false
		}
	}
	p.i += len(ws)
	return true
}
func (p *mparse) p(c string) bool {
	if t := p.peek(); t.k == "p" && t.v == c {
		p.i++
		return true
	}
	return false
}
func (p *mparse) need(c string) {
	if !p.p(c) {
		p.fail("expected %s at %v", c, p.peek())
	}
}
func (p *mparse) ident() string {
	t := p.peek()
	if t.k != "id" && t.k != "qid" {
		p.fail("identifier expected at %v", t)
	}
	p.i++
	if t.k == "id" || p.d == "mysql" {
		return strings.ToLower(t.v)
	}
	return t.v
}

var mreserved = map[string]bool{"from": true, "where": true, "group": true, "having": true, "order": true, "limit": true, "inner": true, "left": true, "right": true, "join": true, "cross": true, "on": true, "as": true, "and": true, "or": true, "not": true, "in": true, "is": true, "union": true, "offset": true, "with": true, "asc": true, "desc": true, "then": true, "else": true, "end": true, "when": true, "between": true, "like": true, "using": true, "for": true, "lateral": true, "natural": true, "full": true, "outer": true, "nulls": true, "separator": true}

func (p *mparse) sel() *msel {
	if !p.kw("select") {
		p.fail("SELECT expected at %v", p.peek())
	}
	s := &msel{limit: -1}
	s.dist = p.kw("distinct")
	for {
		if p.p("*") {
			s.items = append(s.items, mitem{star: "*"})
		} else {
			st := p.i
			it := mitem{e: p.expr()}
			if it.e.op == "qstar" {
				it.star = it.e.names[0]
			}
			it.e.text = p.join(st, p.i)
			if p.kw("as") {
				it.as = p.asName()
			} else if t := p.peek(); t.k == "qid" || t.k == "id" && !mreserved[strings.ToLower(t.v)] {
				it.as = p.asName()
			}
			s.items = append(s.items, it)
		}
		if !p.p(",") {
			break
		}
	}
	if p.kw("from") {
		s.from = append(s.from, p.fromItem(""))
		for {
			switch {
			case p.p(","), p.kw("cross", "join"):
				s.from = append(s.from, p.fromItem("cross"))
			case p.kw("join"), p.kw("inner", "join"):
				s.from = append(s.from, p.onItem("inner"))
			case p.kw("left", "join"), p.kw("left", "outer", "join"):
				s.from = append(s.from, p.onItem("left"))
			default:
				goto done
			}
		}
	}
done:
	if p.kw("where") {
		s.where = p.expr()
	}
	if p.kw("group", "by") {
		for {
			s.group = append(s.group, p.expr())
			if !p.p(",") {
				break
			}
		}
	}
	if p.kw("having") {
		s.having = p.expr()
	}
	s.ord = p.orderBy()
	if p.kw("limit") {
		e := p.expr()
		n, ok := e.v.(int64)
		if !ok {
			p.fail("LIMIT")
		}
		s.limit = int(n)
	}
	return s
}
func (p *mparse) join(a, b int) string {
	var r []string
	for _, t := range p.t[a:b] {
		r = append(r, t.v)
	}
	return strings.Join(r, "")
}
func (p *mparse) asName() string {
	t := p.peek()
	if t.k != "id" && t.k != "qid" && t.k != "str" {
		p.fail("alias")
	}
	p.i++
	if t.k == "id" && p.d != "mysql" {
		return strings.ToLower(t.v)
	}
	return t.v
}
func (p *mparse) orderBy() []mord {
	var r []mord
	if !p.kw("order", "by") {
		return nil
	}
	for {
		o := mord{e: p.expr()}
		if p.kw("desc") {
			o.desc = true
		} else {
			p.kw("asc")
		}
		r = append(r, o)
		if !p.p(",") {
			return r
		}
	}
}
func (p *mparse) onItem(j string) mfrom {
	f := p.fromItem(j)
	if p.kw("on") {
		f.on = p.expr()
	} else if p.kw("using") {
		p.fail("USING")
	} else {
		p.fail("ON expected")
	}
	return f
}
func (p *mparse) fromItem(j string) mfrom {
	f := mfrom{join: j}
	p.kw("lateral")
	if p.p("(") {
		f.sub = p.sel()
		p.need(")")
	} else {
		st := p.i
		n := p.ident()
		if p.p(".") {
			n += "." + p.ident()
		}
		if t := p.peek(); t.k == "p" && t.v == "(" {
			p.i = st
			f.fn = p.primary()
			if p.kw("with", "ordinality") {
				f.ordn = true
			}
			f.as = strings.ToLower(n)
		} else {
			f.table = strings.TrimPrefix(n, "pg_catalog.")
			f.as = f.table[strings.LastIndex(f.table, ".")+1:]
		}
	}
	if p.kw("as") {
		f.as = p.ident()
	} else if t := p.peek(); t.k == "qid" || t.k == "id" && !mreserved[strings.ToLower(t.v)] {
		f.as = p.ident()
	}
	if p.p("(") {
		for {
			f.cols = append(f.cols, p.ident())
			if !p.p(",") {
				break
			}
		}
		p.need(")")
	}
	return f
}

func (p *mparse) expr() *mex { return p.or() }
func (p *mparse) or() *mex {
	e := p.and()
	for p.kw("or") {
		e = &mex{op: "or", a: []*mex{e, p.and()}}
	}
	return e
}
func (p *mparse) and() *mex {
	e := p.not()
	for p.kw("and") {
		e = &mex{op: "and", a: []*mex{e, p.not()}}
	}
	return e
}
func (p *mparse) not() *mex {
	if p.kw("not") {
		return &mex{op: "not", a: []*mex{p.not()}}
	}
	return p.cmp()
}
func (p *mparse) cmp() *mex {
	e := p.add()
	for {
		neg := false
		if t := p.peek(); t.k == "id" && strings.EqualFold(t.v, "not") {
			p.i++
			neg = true
		}
		wrap := func(x *mex) *mex {
			if neg {
				return &mex{op: "not", a: []*mex{x}}
			}
			return x
		}
		switch {
		case p.kw("in"):
			p.need("(")
			x := &mex{op: "in", a: []*mex{e}}
			if t := p.peek(); t.k == "id" && strings.EqualFold(t.v, "select") {
				x.sub = p.sel()
			} else {
				for {
					x.a = append(x.a, p.expr())
					if !p.p(",") {
						break
					}
				}
			}
			p.need(")")
			e = wrap(x)
			continue
		case p.kw("like"):
			e = wrap(&mex{op: "like", a: []*mex{e, p.add()}})
			continue
		case p.kw("between"):
			lo := p.add()
			if !p.kw("and") {
				p.fail("BETWEEN")
			}
			e = wrap(&mex{op: "between", a: []*mex{e, lo, p.add()}})
			continue
		}
		if neg {
			p.fail("NOT")
		}
		if p.kw("is") {
			n := p.kw("not")
			var x *mex
			switch {
			case p.kw("null"):
				x = &mex{op: "isnull", a: []*mex{e}}
			case p.kw("true"):
				x = &mex{op: "istrue", a: []*mex{e}}
			case p.kw("false"):
				x = &mex{op: "isfalse", a: []*mex{e}}
			default:
				p.fail("IS")
			}
			if n {
				x = &mex{op: "not", a: []*mex{x}}
			}
			e = x
			continue
		}
		op := ""
		for _, o := range []string{">=", "<=", "<>", "!=", "=", "<", ">"} {
			if p.p(o) {
				op = o
				break
			}
		}
		if op == "" {
			return e
		}
		if op == "!=" {
			op = "<>"
		}
		if p.kw("any") || p.kw("all") {
			all := strings.EqualFold(p.t[p.i-1].v, "all")
			p.need("(")
			x := &mex{op: "any" + op, a: []*mex{e}}
			if all {
				x.op = "all" + op
			}
			if t := p.peek(); t.k == "id" && strings.EqualFold(t.v, "select") {
				x.sub = p.sel()
			} else {
				x.a = append(x.a, p.expr())
			}
			p.need(")")
			e = x
			continue
		}
		e = &mex{op: op, a: []*mex{e, p.add()}}
	}
}
func (p *mparse) add() *mex {
	e := p.mul()
	for {
		switch {
		case p.p("+"):
			e = &mex{op: "+", a: []*mex{e, p.mul()}}
		case p.p("-"):
			e = &mex{op: "-", a: []*mex{e, p.mul()}}
		case p.p("||"):
			e = &mex{op: "||", a: []*mex{e, p.mul()}}
		default:
			return e
		}
	}
}
func (p *mparse) mul() *mex {
	e := p.unary()
	for {
		if p.p("*") {
			e = &mex{op: "*", a: []*mex{e, p.unary()}}
		} else {
			return e
		}
	}
}
func (p *mparse) unary() *mex {
	if p.p("-") {
		return &mex{op: "-", a: []*mex{{op: "const", v: int64(0)}, p.unary()}}
	}
	e := p.primary()
	for {
		if p.p("::") {
			ty := p.ident()
			if p.p("[") {
				p.need("]")
				ty += "[]"
			}
			e = &mex{op: "cast", a: []*mex{e}, names: []string{ty}}
		} else if p.p("[") {
			ix := p.expr()
			p.need("]")
			e = &mex{op: "subscript", a: []*mex{e, ix}}
		} else {
			return e
		}
	}
}
func (p *mparse) primary() *mex {
	t := p.peek()
	switch t.k {
	case "num":
		p.i++
		n, _ := strconv.ParseInt(t.v, 10, 64)
		return &mex{op: "const", v: n}
	case "str":
		p.i++
		return &mex{op: "const", v: t.v}
	case "par":
		p.i++
		n := p.par
		if t.v != "" {
			n, _ = strconv.Atoi(t.v)
			n--
		} else {
			p.par++
		}
		return &mex{op: "par", v: int64(n)}
	case "p":
		if p.p("(") {
			if x := p.peek(); x.k == "id" && strings.EqualFold(x.v, "select") {
				e := &mex{op: "scalar", sub: p.sel()}
				p.need(")")
				return e
			}
			e := p.expr()
			if p.p(",") {
				p.fail("row constructor")
			}
			p.need(")")
			return e
		}
		p.fail("unexpected %q", t.v)
	case "id":
		switch {
		case p.kw("true"):
			return &mex{op: "const", v: true}
		case p.kw("false"):
			return &mex{op: "const", v: false}
		case p.kw("null"):
			return &mex{op: "const"}
		case p.kw("case"):
			e := &mex{op: "case"}
			var subj *mex
			if x := p.peek(); !(x.k == "id" && strings.EqualFold(x.v, "when")) {
				subj = p.expr()
			}
			for p.kw("when") {
				c := p.expr()
				if subj != nil {
					c = &mex{op: "=", a: []*mex{subj, c}}
				}
				if !p.kw("then") {
					p.fail("THEN")
				}
				e.a = append(e.a, c, p.expr())
			}
			if p.kw("else") {
				e.a = append(e.a, p.expr())
			}
			if !p.kw("end") {
				p.fail("END")
			}
			return e
		case p.kw("exists"):
			p.need("(")
			e := &mex{op: "exists", sub: p.sel()}
			p.need(")")
			return e
		case p.kw("cast"):
			p.need("(")
			x := p.expr()
			if !p.kw("as") {
				p.fail("CAST")
			}
			ty := p.ident()
			p.need(")")
			return &mex{op: "cast", a: []*mex{x}, names: []string{ty}}
		}
		if strings.EqualFold(t.v, "array") && p.i+1 < len(p.t) {
			if n := p.t[p.i+1]; n.k == "p" && (n.v == "(" || n.v == "[") {
				p.i += 2
				e := &mex{op: "array"}
				if n.v == "(" {
					e.sub = p.sel()
					p.need(")")
				} else {
					for {
						e.a = append(e.a, p.expr())
						if !p.p(",") {
							break
						}
					}
					p.need("]")
				}
				return e
			}
		}
		if mreserved[strings.ToLower(t.v)] && strings.ToLower(t.v) != "left" {
			p.fail("unexpected %s", t.v)
		}
	}
	names := []string{p.ident()}
	for p.p(".") {
		if p.p("*") {
			return &mex{op: "qstar", names: names}
		}
		names = append(names, p.ident())
	}
	if names[0] == "pg_catalog" {
		names = names[1:]
	}
	if len(names) == 1 && p.p("(") {
		e := &mex{op: "call", names: []string{strings.ToLower(names[0])}}
		if p.p("*") {
			p.need(")")
			e.names[0] += "*"
			return e
		}
		if !p.p(")") {
			e.dist = p.kw("distinct")
			for {
				e.a = append(e.a, p.expr())
				if !p.p(",") {
					break
				}
			}
			e.ord = p.orderBy()
			if p.kw("separator") {
				e.a = append(e.a, p.primary())
			}
			p.need(")")
		}
		return e
	}
	return &mex{op: "col", names: names}
}

// ---- the catalog ----------------------------------------------------------------------------------------------

type mrow map[string]val

func (d *DBState) rels(dialect string) map[string][]mrow {
	r := map[string][]mrow{}
	add := func(t string, row mrow) { r[t] = append(r[t], row) }
	ixs := append([]Index{}, d.sc.Server.Indexes...)
	// a primary key is always backed by an index
	for _, t := range d.sc.Server.Tables {
		var pk []string
		for _, c := range t.Cols {
			if c.PK {
				pk = append(pk, c.Name)
			}
		}
		has := len(pk) == 0
		for _, ix := range ixs {
			has = has || ix.Primary && ix.Schema == t.Schema && ix.Table == t.Name
		}
		if !has {
			n := t.Name + "_pkey"
			if dialect == "mysql" {
				n = "PRIMARY"
			}
			ixs = append(ixs, Index{Schema: t.Schema, Table: t.Name, Name: n, Cols: pk, Primary: true})
		}
	}
	if dialect == "mysql" {
		for _, t := range d.sc.Server.Tables {
			ty := "BASE TABLE"
			if t.Kind == "v" {
				ty = "VIEW"
			}
			add("information_schema.tables", mrow{"table_catalog": "def", "table_schema": t.Schema, "table_name": t.Name, "table_type": ty})
			for n, c := range t.Cols {
				key := ""
				if c.PK {
					key = "PRI"
				}
				for _, ix := range ixs {
					if key != "" || ix.Schema != t.Schema || ix.Table != t.Name || len(ix.Cols) == 0 || !strings.EqualFold(ix.Cols[0], c.Name) {
						continue
					}
					key = "MUL"
					if ix.Unique && len(ix.Cols) == 1 {
						key = "UNI"
					}
				}
				add("information_schema.columns", mrow{"table_catalog": "def", "table_schema": t.Schema, "table_name": t.Name, "column_name": c.Name, "ordinal_position": int64(n + 1), "column_key": key, "extra": "", "data_type": "int", "is_nullable": "YES"})
			}
		}
		for _, ix := range ixs {
			for n, c := range ix.Cols {
				row := mrow{"table_catalog": "def", "table_schema": ix.Schema, "table_name": ix.Table, "index_schema": ix.Schema, "index_name": ix.Name, "seq_in_index": int64(n + 1), "column_name": c, "expression": nil, "non_unique": int64(1), "index_type": "BTREE", "is_visible": "YES", "sub_part": nil, "collation": "A"}
				if ix.Primary || ix.Unique {
					row["non_unique"] = int64(0)
				}
				if strings.HasPrefix(c, "(") {
					row["column_name"], row["expression"] = nil, c
				}
				add("information_schema.statistics", row)
			}
		}
		return r
	}
	oid, ns := int64(16384), map[string]int64{}
	next := func() int64 { oid++; return oid }
	nsOf := func(s string) int64 {
		if _, ok := ns[s]; !ok {
			ns[s] = next()
			add("pg_namespace", mrow{"oid": ns[s], "nspname": s})
		}
		return ns[s]
	}
	att := func(rel int64, name string, num int64, dropped bool) {
		add("pg_attribute", mrow{"attrelid": rel, "attname": name, "attnum": num, "attisdropped": dropped, "attnotnull": false})
	}
	type tk struct{ s, n string }
	toid, tnum := map[tk]int64{}, map[tk]map[string]int64{}
	for _, t := range d.sc.Server.Tables {
		k := tk{t.Schema, t.Name}
		if _, dup := toid[k]; dup {
			continue
		}
		o := next()
		toid[k], tnum[k] = o, map[string]int64{}
		kind := t.Kind
		if kind == "" {
			kind = "r"
		}
		add("pg_class", mrow{"oid": o, "relname": t.Name, "relnamespace": nsOf(t.Schema), "relkind": kind, "relispartition": false, "relhasindex": true})
		num, sys := int64(0), int64(0)
		ty := "BASE TABLE"
		if kind == "v" {
			ty = "VIEW"
		}
		add("information_schema.tables", mrow{"table_schema": t.Schema, "table_name": t.Name, "table_type": ty})
		for _, c := range t.Cols {
			if c.Sys {
				sys--
				att(o, c.Name, sys, false)
				continue
			}
			num++
			tnum[k][c.Name] = num
			att(o, c.Name, num, false)
			add("information_schema.columns", mrow{"table_schema": t.Schema, "table_name": t.Name, "column_name": c.Name, "ordinal_position": num})
		}
		if len(t.Cols)%2 == 1 {
			num++
			att(o, fmt.Sprintf("........pg.dropped.%d........", num), num, true)
		}
	}
	for _, ix := range ixs {
		k := tk{ix.Schema, ix.Table}
		to, ok := toid[k]
		if !ok {
			to = next()
			toid[k], tnum[k] = to, map[string]int64{}
			add("pg_class", mrow{"oid": to, "relname": ix.Table, "relnamespace": nsOf(ix.Schema), "relkind": "r", "relispartition": false, "relhasindex": true})
		}
		io := next()
		add("pg_class", mrow{"oid": io, "relname": ix.Name, "relnamespace": nsOf(ix.Schema), "relkind": "i", "relispartition": false, "relhasindex": false})
		var key vec
		var exprs val
		var defs []val
		for n, c := range ix.Cols {
			num := tnum[k][c]
			if strings.HasPrefix(c, "(") {
				exprs = "x"
				defs = append(defs, strings.TrimSuffix(c[1:], ")"))
				att(io, "expr", int64(n+1), false)
			} else {
				defs = append(defs, pgIdent(c))
				att(io, c, int64(n+1), false)
			}
			key = append(key, num)
		}
		n := int64(len(ix.Cols))
		add("pg_index", mrow{"indexrelid": io, "indrelid": to, "indkey": key, "indisprimary": ix.Primary, "indisunique": ix.Primary || ix.Unique, "indisvalid": true, "indisready": true, "indislive": true, "indnatts": n, "indnkeyatts": n, "indexprs": exprs, "indpred": nil, "#defs": defs, "#whole": wholeDef(ix, defs)})
	}
	return r
}

// wholeDef is the text of PG_GET_INDEXDEF for the index as a whole.
func wholeDef(ix Index, defs []val) string {
	var s []string
	for i, d := range defs {
		x := d.(string)
		if strings.HasPrefix(ix.Cols[i], "(") && strings.ContainsAny(x, " ") {
			x = "(" + x + ")"
		}
		s = append(s, x)
	}
	u := ""
	if ix.Primary || ix.Unique {
		u = "UNIQUE "
	}
	return fmt.Sprintf("CREATE %sINDEX %s ON %s.%s USING btree (%s)", u, pgIdent(ix.Name), pgIdent(ix.Schema), pgIdent(ix.Table), strings.Join(s, ", "))
}

var rePlainId = regexp.MustCompile(`\A[a-z_][a-z0-9_]*\z`)

func pgIdent(c string) string {
	if rePlainId.MatchString(c) {
		return c
	}
	return `"` + strings.ReplaceAll(c, `"`, `""`) + `"`
}

// ---- evaluation -----------------------------------------------------------------------------------------------

type mbind struct {
	as  string
	row mrow
}
type mframe []mbind

type mrun struct {
	bin  bool // compare texts as they are
	d    string
	rel  map[string][]mrow
	args []string
	rnd  *rand.Rand
	cols map[string]map[string]bool
}

var exactNames = map[string]bool{"table_schema": true, "table_name": true, "index_schema": true, "schema_name": true}

func (r *mrun) fail(f string, a ...interface{}) { panic(mfail{fmt.Sprintf(f, a...)}) }

func (r *mrun) lookup(env []mframe, names []string) val {
	if len(names) > 2 {
		names = names[len(names)-2:]
	}
	for _, f := range env {
		if len(names) == 2 {
			for _, b := range f {
				if b.as == names[0] {
					v, ok := b.row[names[1]]
					if !ok {
						r.fail("no column %v", names)
					}
					return v
				}
			}
			continue
		}
		hit := 0
		var v val
		for _, b := range f {
			if x, ok := b.row[names[0]]; ok {
				hit++
				v = x
			}
		}
		if hit > 1 {
			r.fail("ambiguous column %v", names)
		}
		if hit == 1 {
			return v
		}
	}
	r.fail("no column %v", names)
	return nil
}

func (r *mrun) cmp(a, b val) (int, bool) { // ok = false: NULL
	if a == nil || b == nil {
		return 0, false
	}
	switch x := a.(type) {
	case int64:
		switch y := b.(type) {
		case int64:
			return map[bool]int{true: -1, false: map[bool]int{true: 1, false: 0}[x > y]}[x < y], true
		case string:
			n, err := strconv.ParseInt(y, 10, 64)
			if err == nil {
				return r.cmp(x, n)
			}
		}
	case bool:
		switch y := b.(type) {
		case bool:
			n := func(b bool) int64 {
				if b {
					return 1
				}
				return 0
			}
			return r.cmp(n(x), n(y))
		case string:
			return r.cmp(x, strings.HasPrefix(strings.ToLower(y), "t"))
		}
	case string:
		switch y := b.(type) {
		case string:
			if r.d == "mysql" && !r.bin {
				x, y = strings.ToLower(x), strings.ToLower(y)
			}
			return strings.Compare(x, y), true
		default:
			c, ok := r.cmp(b, a)
			return -c, ok
		}
	}
	r.fail("cannot compare %T and %T", a, b)
	return 0, false
}
func (r *mrun) rel3(op string, a, b val) val {
	c, ok := r.cmp(a, b)
	if !ok {
		return nil
	}
	switch op {
	case "=":
		return c == 0
	case "<>":
		return c != 0
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	default:
		return c >= 0
	}
}
func items(v val) ([]val, bool) {
	switch x := v.(type) {
	case []val:
		return x, true
	case vec:
		return x, true
	}
	return nil, false
}

var aggs = map[string]bool{"array_agg": true, "string_agg": true, "group_concat": true, "count": true, "count*": true, "bool_or": true, "bool_and": true, "max": true, "min": true}

func hasAgg(e *mex) bool {
	if e == nil {
		return false
	}
	if e.op == "call" && aggs[e.names[0]] {
		return true
	}
	for _, a := range e.a {
		if hasAgg(a) {
			return true
		}
	}
	return false
}

// eval evaluates e; grp are the rows of the group when aggregates are allowed.
func (r *mrun) eval(e *mex, env []mframe, grp []mframe) val {
	ev := func(i int) val { return r.eval(e.a[i], env, grp) }
	switch e.op {
	case "=", "<>", "<", "<=", ">", ">=", "in":
		// MySQL compares names of schemas and tables as they are, those of columns and indexes without case
		for _, x := range e.a {
			if x != nil && x.op == "col" && exactNames[x.names[len(x.names)-1]] {
				defer func(b bool) { r.bin = b }(r.bin)
				r.bin = true
			}
		}
	}
	switch e.op {
	case "const":
		return e.v
	case "par":
		n := int(e.v.(int64))
		if n >= len(r.args) {
			return nil // only described, not executed
		}
		return r.args[n]
	case "col":
		return r.lookup(env, e.names)
	case "and":
		a, b := ev(0), ev(1)
		if a == false || b == false {
			return false
		}
		if a == nil || b == nil {
			return nil
		}
		return true
	case "or":
		a, b := ev(0), ev(1)
		if a == true || b == true {
			return true
		}
		if a == nil || b == nil {
			return nil
		}
		return false
	case "not":
		switch x := ev(0).(type) {
		case nil:
			return nil
		case bool:
			return !x
		}
		r.fail("NOT")
	case "isnull":
		return ev(0) == nil
	case "istrue":
		return ev(0) == true
	case "isfalse":
		return ev(0) == false
	case "=", "<>", "<", "<=", ">", ">=":
		return r.rel3(e.op, ev(0), ev(1))
	case "between":
		x := ev(0)
		a, b := r.rel3(">=", x, ev(1)), r.rel3("<=", x, ev(2))
		if a == nil || b == nil {
			return nil
		}
		return a == true && b == true
	case "like":
		x, ok1 := ev(0).(string)
		y, ok2 := ev(1).(string)
		if !ok1 || !ok2 {
			return nil
		}
		q := regexp.QuoteMeta(y)
		q = strings.NewReplacer(`\\_`, "_", `\\%`, "%", "_", ".", "%", ".*").Replace(q)
		return regexp.MustCompile(`(?s)\A` + q + `\z`).MatchString(x)
	case "in":
		x := ev(0)
		var l []val
		if e.sub != nil {
			l = r.column(e.sub, env)
		} else {
			for i := 1; i < len(e.a); i++ {
				l = append(l, ev(i))
			}
		}
		return r.anyOf("=", x, l)
	case "scalar":
		l := r.column(e.sub, env)
		if len(l) > 1 {
			r.fail("more than one row")
		}
		if len(l) == 0 {
			return nil
		}
		return l[0]
	case "exists":
		rows, _, _ := r.query(e.sub, env)
		return len(rows) > 0
	case "array":
		if e.sub != nil {
			l := r.column(e.sub, env)
			if l == nil {
				l = []val{}
			}
			return l
		}
		l := []val{}
		for i := range e.a {
			l = append(l, ev(i))
		}
		return l
	case "subscript":
		n, ok := ev(1).(int64)
		if !ok {
			return nil
		}
		x := ev(0)
		l, _ := items(x)
		if _, z := x.(vec); !z {
			n--
		}
		if n < 0 || int(n) >= len(l) {
			return nil
		}
		return l[n]
	case "cast":
		x := ev(0)
		switch e.names[0] {
		case "text", "varchar", "char", "name":
			if x == nil {
				return nil
			}
			if _, ok := items(x); ok {
				return render(x)
			}
			return render(x)
		case "regclass":
			r.fail("regclass")
		case "int2[]", "int[]", "int4[]", "text[]", "smallint[]":
			l, ok := items(x)
			if ok {
				return l
			}
		}
		return x
	case "||":
		a, b := ev(0), ev(1)
		if a == nil || b == nil {
			return nil
		}
		return render(a) + render(b)
	case "+", "-", "*":
		a, ok1 := ev(0).(int64)
		b, ok2 := ev(1).(int64)
		if !ok1 || !ok2 {
			return nil
		}
		switch e.op {
		case "+":
			return a + b
		case "-":
			return a - b
		}
		return a * b
	case "case":
		i := 0
		for ; i+1 < len(e.a); i += 2 {
			if ev(i) == true {
				return ev(i + 1)
			}
		}
		if i < len(e.a) {
			return ev(i)
		}
		return nil
	case "call":
		if aggs[e.names[0]] {
			return r.agg(e, env, grp)
		}
		var a []val
		for i := range e.a {
			a = append(a, ev(i))
		}
		return r.call(e.names[0], a)
	default:
		if strings.HasPrefix(e.op, "any") || strings.HasPrefix(e.op, "all") {
			var l []val
			if e.sub != nil {
				l = r.column(e.sub, env)
			} else {
				x := ev(1)
				if x == nil {
					return nil
				}
				var ok bool
				if l, ok = items(x); !ok {
					s, isS := x.(string)
					if !isS || !strings.HasPrefix(s, "{") {
						r.fail("ANY of no array")
					}
					for _, p := range parsePgArray(s) {
						l = append(l, p)
					}
				}
			}
			if strings.HasPrefix(e.op, "any") {
				return r.anyOf(e.op[3:], ev(0), l)
			}
			for _, y := range l {
				if v := r.rel3(e.op[3:], ev(0), y); v != true {
					return v
				}
			}
			return true
		}
	}
	r.fail("unsupported expression %s", e.op)
	return nil
}

func parsePgArray(s string) []string {
	s = strings.TrimSuffix(strings.TrimPrefix(s, "{"), "}")
	var res []string
	var b strings.Builder
	in, any := false, false
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\' && i+1 < len(s):
			i++
			b.WriteByte(s[i])
		case s[i] == '"':
			in, any = !in, true
		case s[i] == ',' && !in:
			res = append(res, b.String())
			b.Reset()
			any = true
		default:
			b.WriteByte(s[i])
		}
	}
	if b.Len() > 0 || any {
		res = append(res, b.String())
	}
	return res
}

func (r *mrun) anyOf(op string, x val, l []val) val {
	var res val = false
	for _, y := range l {
		switch r.rel3(op, x, y) {
		case true:
			return true
		case nil:
			res = nil
		}
	}
	return res
}

func (r *mrun) agg(e *mex, env []mframe, grp []mframe) val {
	if grp == nil {
		r.fail("aggregate")
	}
	if e.names[0] == "count*" {
		return int64(len(grp))
	}
	type kv struct {
		v    val
		keys []val
	}
	var l []kv
	for _, f := range grp {
		en := append([]mframe{f}, env[1:]...)
		x := kv{v: r.eval(e.a[0], en, nil)}
		for _, o := range e.ord {
			x.keys = append(x.keys, r.eval(o.e, en, nil))
		}
		l = append(l, x)
	}
	sort.SliceStable(l, func(i, j int) bool { return r.less(l[i].keys, l[j].keys, e.ord) })
	var vs []val
	for _, x := range l {
		if x.v == nil && e.names[0] != "array_agg" {
			continue
		}
		dup := false
		if e.dist {
			for _, y := range vs {
				dup = dup || y == x.v
			}
		}
		if !dup {
			vs = append(vs, x.v)
		}
	}
	switch e.names[0] {
	case "count":
		return int64(len(vs))
	case "array_agg":
		if len(vs) == 0 {
			return nil
		}
		return vs
	case "string_agg", "group_concat":
		sep := ","
		if len(e.a) > 1 {
			sep, _ = r.eval(e.a[1], env, nil).(string)
		}
		if len(vs) == 0 {
			return nil
		}
		var ss []string
		for _, v := range vs {
			ss = append(ss, render(v))
		}
		return strings.Join(ss, sep)
	case "bool_or", "bool_and":
		if len(vs) == 0 {
			return nil
		}
		for _, v := range vs {
			if v == (e.names[0] == "bool_or") {
				return v
			}
		}
		return e.names[0] != "bool_or"
	}
	var best val
	for _, v := range vs {
		if c, _ := r.cmp(v, best); best == nil || e.names[0] == "max" && c > 0 || e.names[0] == "min" && c < 0 {
			best = v
		}
	}
	return best
}

func (r *mrun) call(f string, a []val) val {
	str := func(i int) (string, bool) {
		if i >= len(a) {
			return "", false
		}
		s, ok := a[i].(string)
		return s, ok
	}
	switch f {
	case "coalesce", "ifnull":
		for _, x := range a {
			if x != nil {
				return x
			}
		}
		return nil
	case "lower":
		if s, ok := str(0); ok {
			return strings.ToLower(s)
		}
		return nil
	case "upper":
		if s, ok := str(0); ok {
			return strings.ToUpper(s)
		}
		return nil
	case "trim", "btrim":
		if s, ok := str(0); ok {
			return strings.TrimSpace(s)
		}
		return nil
	case "quote_ident":
		if s, ok := str(0); ok {
			return pgIdent(s)
		}
		return nil
	case "nullif":
		if r.rel3("=", a[0], a[1]) == true {
			return nil
		}
		return a[0]
	case "pg_get_indexdef":
		if len(a) == 3 {
			for _, ix := range r.rel["pg_index"] {
				if ix["indexrelid"] == a[0] {
					d := ix["#defs"].([]val)
					n, _ := a[1].(int64)
					if n >= 1 && int(n) <= len(d) {
						return d[n-1]
					}
					if n == 0 {
						return ix["#whole"]
					}
					return ""
				}
			}
			return nil
		}
	case "array_length", "cardinality":
		l, ok := items(a[0])
		if !ok {
			return nil
		}
		return int64(len(l))
	case "array_lower":
		if _, ok := a[0].(vec); ok {
			return int64(0)
		}
		return int64(1)
	case "array_upper":
		l, _ := items(a[0])
		if _, ok := a[0].(vec); ok {
			return int64(len(l) - 1)
		}
		return int64(len(l))
	case "array_position":
		l, _ := items(a[0])
		for i, x := range l {
			if r.rel3("=", x, a[1]) == true {
				if _, z := a[0].(vec); z {
					return int64(i)
				}
				return int64(i + 1)
			}
		}
		return nil
	}
	r.fail("unsupported function %s", f)
	return nil
}

func (r *mrun) less(a, b []val, ord []mord) bool {
	for i := range a {
		x, y := a[i], b[i]
		if x == nil && y == nil {
			continue
		}
		c := 0
		switch {
		case x == nil:
			c = 1
		case y == nil:
			c = -1
		default:
			c, _ = r.cmp(x, y)
		}
		if r.d == "mysql" && (x == nil || y == nil) {
			c = -c
		}
		if ord[i].desc {
			c = -c
		}
		if c != 0 {
			return c < 0
		}
	}
	return false
}

func (r *mrun) column(s *msel, env []mframe) []val {
	rows, names, _ := r.query(s, env)
	if len(names) != 1 {
		r.fail("one column expected")
	}
	var l []val
	for _, x := range rows {
		l = append(l, x[0])
	}
	return l
}

func (r *mrun) source(f mfrom, env []mframe) []mrow {
	if f.sub != nil {
		rows, names, _ := r.query(f.sub, env)
		var l []mrow
		for _, x := range rows {
			m := mrow{}
			for i, n := range names {
				if i < len(f.cols) {
					n = f.cols[i]
				}
				m[strings.ToLower(n)] = x[i]
			}
			l = append(l, m)
		}
		return l
	}
	if f.fn != nil {
		var a []val
		for _, x := range f.fn.a {
			a = append(a, r.eval(x, env, nil))
		}
		var vs []val
		switch f.fn.names[0] {
		case "generate_subscripts":
			l, _ := items(a[0])
			for i := range l {
				if _, z := a[0].(vec); z {
					vs = append(vs, int64(i))
				} else {
					vs = append(vs, int64(i+1))
				}
			}
		case "unnest":
			l, _ := items(a[0])
			vs = append(vs, l...)
		case "generate_series":
			lo, ok1 := a[0].(int64)
			hi, ok2 := a[1].(int64)
			for i := lo; ok1 && ok2 && i <= hi && i < lo+1000; i++ {
				vs = append(vs, i)
			}
		default:
			r.fail("unsupported function %s in FROM", f.fn.names[0])
		}
		cn, on := f.as, "ordinality"
		if len(f.cols) > 0 {
			cn = f.cols[0]
		}
		if len(f.cols) > 1 {
			on = f.cols[1]
		}
		var l []mrow
		for i, v := range vs {
			m := mrow{cn: v}
			if f.ordn {
				m[on] = int64(i + 1)
			}
			l = append(l, m)
		}
		return l
	}
	if _, ok := r.cols[f.table]; !ok {
		r.fail("unsupported table %s", f.table)
	}
	l := append([]mrow{}, r.rel[f.table]...)
	r.rnd.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

// query gives the rows, the names of the columns and the expressions behind them.
func (r *mrun) query(s *msel, env []mframe) ([][]val, []string, []*mex) {
	frames := []mframe{{}}
	for _, f := range s.from {
		var nf []mframe
		for _, fr := range frames {
			hit := false
			for _, row := range r.source(f, append([]mframe{fr}, env...)) {
				x := append(append(mframe{}, fr...), mbind{f.as, row})
				if f.on == nil || r.eval(f.on, append([]mframe{x}, env...), nil) == true {
					nf = append(nf, x)
					hit = true
				}
			}
			if !hit && f.join == "left" {
				row := mrow{}
				for c := range r.cols[f.table] {
					row[c] = nil
				}
				nf = append(nf, append(append(mframe{}, fr...), mbind{f.as, row}))
			}
		}
		frames = nf
	}
	if s.where != nil {
		var nf []mframe
		for _, fr := range frames {
			v := r.eval(s.where, append([]mframe{fr}, env...), nil)
			if v == true {
				nf = append(nf, fr)
			}
		}
		frames = nf
	}
	var its []mitem
	for _, it := range s.items {
		if it.star == "" {
			its = append(its, it)
			continue
		}
		for _, f := range s.from {
			if it.star != "*" && it.star != f.as {
				continue
			}
			var cs []string
			for c := range r.cols[f.table] {
				cs = append(cs, c)
			}
			sort.Strings(cs)
			if len(cs) == 0 {
				r.fail("star")
			}
			for _, c := range cs {
				its = append(its, mitem{e: &mex{op: "col", names: []string{f.as, c}}, as: c})
			}
		}
	}
	var names []string
	var exs []*mex
	alias := map[string]*mex{}
	for _, it := range its {
		n := it.as
		if n == "" {
			switch it.e.op {
			case "col":
				n = it.e.names[len(it.e.names)-1]
				if r.d == "mysql" {
					n = strings.ToUpper(n) // information_schema names its columns in upper case
				}
			case "call":
				n = it.e.names[0]
				if r.d == "mysql" {
					n = it.e.text
				}
			case "array":
				n = "array"
			default:
				n = "?column?"
				if r.d == "mysql" {
					n = it.e.text
				}
			}
		}
		names = append(names, n)
		exs = append(exs, it.e)
		alias[strings.ToLower(n)] = it.e
	}
	type unit struct {
		env []mframe
		grp []mframe
	}
	var us []unit
	ag := len(s.group) > 0
	for _, e := range exs {
		ag = ag || hasAgg(e)
	}
	if ag {
		var keys [][]val
		var groups [][]mframe
		for _, fr := range frames {
			var k []val
			for _, g := range s.group {
				if g.op == "col" && len(g.names) == 1 && alias[g.names[0]] != nil {
					g = alias[g.names[0]]
				}
				k = append(k, r.eval(g, append([]mframe{fr}, env...), nil))
			}
			at := -1
			for i, o := range keys {
				same := true
				for j := range o {
					if fmt.Sprint(o[j]) != fmt.Sprint(k[j]) {
						same = false
					}
				}
				if same {
					at = i
				}
			}
			if at < 0 {
				keys, groups = append(keys, k), append(groups, nil)
				at = len(keys) - 1
			}
			groups[at] = append(groups[at], fr)
		}
		if len(s.group) == 0 && len(groups) == 0 {
			groups = append(groups, nil)
		}
		for _, g := range groups {
			first := mframe{}
			if len(g) > 0 {
				first = g[0]
			} else {
				g = []mframe{}
			}
			us = append(us, unit{append([]mframe{first}, env...), g})
		}
	} else {
		for _, fr := range frames {
			us = append(us, unit{append([]mframe{fr}, env...), nil})
		}
	}
	type out struct{ row, keys []val }
	var os []out
	for _, u := range us {
		if s.having != nil && r.eval(s.having, u.env, u.grp) != true {
			continue
		}
		var o out
		for _, e := range exs {
			o.row = append(o.row, r.eval(e, u.env, u.grp))
		}
		for _, k := range s.ord {
			e := k.e
			if e.op == "col" && len(e.names) == 1 && alias[e.names[0]] != nil {
				e = alias[e.names[0]]
			}
			if n, ok := e.v.(int64); ok && e.op == "const" && n >= 1 && int(n) <= len(exs) {
				e = exs[n-1]
			}
			o.keys = append(o.keys, r.eval(e, u.env, u.grp))
		}
		os = append(os, o)
	}
	if s.dist {
		var nd []out
		seen := map[string]bool{}
		for _, o := range os {
			k := fmt.Sprintf("%#v", o.row)
			if !seen[k] {
				seen[k] = true
				nd = append(nd, o)
			}
		}
		os = nd
	}
	sort.SliceStable(os, func(i, j int) bool { return r.less(os[i].keys, os[j].keys, s.ord) })
	if s.limit >= 0 && len(os) > s.limit {
		os = os[:s.limit]
	}
	var rows [][]val
	for _, o := range os {
		rows = append(rows, o.row)
	}
	return rows, names, exs
}

func render(v val) string {
	switch x := v.(type) {
	case nil:
		return sqlNull
	case string:
		return x
	case int64:
		return strconv.FormatInt(x, 10)
	case bool:
		if x {
			return "t"
		}
		return "f"
	}
	if x, ok := v.(vec); ok {
		var s []string
		for _, y := range x {
			s = append(s, render(y))
		}
		return strings.Join(s, " ")
	}
	var s []string
	for _, y := range v.([]val) {
		if y == nil {
			s = append(s, "NULL")
			continue
		}
		t := render(y)
		if t == "" || strings.EqualFold(t, "null") || strings.ContainsAny(t, "{}\",\\ \t\n") {
			t = `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(t) + `"`
		}
		s = append(s, t)
	}
	return "{" + strings.Join(s, ",") + "}"
}

// stype is the type of an expression without evaluating it.
func stype(e *mex) string {
	switch e.op {
	case "const":
		if _, ok := e.v.(bool); ok {
			return "bool"
		}
	case "col":
		n := e.names[len(e.names)-1]
		if strings.HasPrefix(n, "indis") || n == "attisdropped" || n == "attnotnull" || n == "relispartition" {
			return "bool"
		}
	case "array":
		return "textarray"
	case "and", "or", "not", "isnull", "istrue", "isfalse", "in", "exists", "like", "between", "=", "<>", "<", "<=", ">", ">=":
		return "bool"
	case "scalar":
		if len(e.sub.items) == 1 && e.sub.items[0].e != nil {
			return stype(e.sub.items[0].e)
		}
	case "case":
		if len(e.a) > 1 {
			return stype(e.a[1])
		}
	case "call":
		switch e.names[0] {
		case "array_agg":
			return "textarray"
		case "bool_or", "bool_and":
			return "bool"
		case "coalesce", "max", "min", "nullif":
			for _, a := range e.a {
				if t := stype(a); t != "text" {
					return t
				}
			}
		}
	default:
		if strings.HasPrefix(e.op, "any") || strings.HasPrefix(e.op, "all") {
			return "bool"
		}
	}
	return "text"
}

var pgCols = map[string]string{
	"pg_namespace":               "oid nspname",
	"pg_class":                   "oid relname relnamespace relkind relispartition relhasindex",
	"pg_attribute":               "attrelid attname attnum attisdropped attnotnull",
	"pg_index":                   "indexrelid indrelid indkey indisprimary indisunique indisvalid indisready indislive indnatts indnkeyatts indexprs indpred",
	"information_schema.tables":  "table_schema table_name table_type",
	"information_schema.columns": "table_schema table_name column_name ordinal_position",
}
var myCols = map[string]string{
	"information_schema.tables":     "table_catalog table_schema table_name table_type",
	"information_schema.columns":    "table_catalog table_schema table_name column_name ordinal_position column_key extra data_type is_nullable",
	"information_schema.statistics": "table_catalog table_schema table_name index_schema index_name seq_in_index column_name expression non_unique index_type is_visible sub_part collation",
}

// evalCatalog evaluates a catalog query; err tells that it is beyond the evaluator (or wrong).
func (d *DBState) evalCatalog(text string, args []string, dialect string) (rs *resultSet, err error) {
	defer func() {
		if x := recover(); x != nil {
			if f, ok := x.(mfail); ok {
				rs, err = nil, fmt.Errorf("stand-in: %s", f.e)
				return
			}
			panic(x)
		}
	}()
	ts, err := mlex(text, dialect)
	if err != nil {
		return nil, err
	}
	p := &mparse{t: ts, d: dialect}
	s := p.sel()
	p.p(";")
	if p.i != len(p.t) {
		p.fail("unexpected %v", p.peek())
	}
	r := &mrun{d: dialect, rel: d.rels(dialect), args: args, rnd: rand.New(rand.NewSource(d.sc.Server.Shuffle + 7)), cols: map[string]map[string]bool{}}
	cols := pgCols
	if dialect == "mysql" {
		cols = myCols
	}
	for t, cs := range cols {
		r.cols[t] = map[string]bool{}
		for _, c := range strings.Fields(cs) {
			r.cols[t][c] = true
		}
	}
	rows, names, exs := r.query(s, nil)
	rs = &resultSet{cols: names}
	for i := range names {
		ty := stype(exs[i])
		for _, row := range rows {
			switch row[i].(type) {
			case bool:
				ty = "bool"
			case []val:
				ty = "textarray"
			}
		}
		rs.typ = append(rs.typ, ty)
	}
	for _, row := range rows {
		var o []string
		for _, v := range row {
			o = append(o, render(v))
		}
		rs.rows = append(rs.rows, o)
	}
	return rs, nil
}
