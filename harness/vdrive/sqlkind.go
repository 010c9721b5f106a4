package main

import (
	"regexp"
	"strings"
)

// tok is a lexical token of a DDL statement.
type tok struct {
	kind string // word, quoted, punct
	val  string
}

func lexSQL(s string, dialect string) ([]tok, bool) {
	var res []tok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '`' && dialect == "mysql", c == '"' && dialect != "mysql":
			var b strings.Builder
			j := i + 1
			closed := false
			for j < len(s) {
				if s[j] == c {
					if j+1 < len(s) && s[j+1] == c {
						b.WriteByte(c)
						j += 2
						continue
					}
					closed = true
					break
				}
				b.WriteByte(s[j])
				j++
			}
			if !closed {
				return nil, false
			}
			res = append(res, tok{"quoted", b.String()})
			i = j + 1
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c >= 0x80:
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '$' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9' || s[j] >= 0x80) {
				j++
			}
			res = append(res, tok{"word", s[i:j]})
			i = j
		default:
			res = append(res, tok{"punct", string(c)})
			i++
		}
	}
	return res, true
}

type ddl struct {
	kind  string // create, drop
	name  string
	table string
	cols  []string
}

type tp struct {
	t []tok
	i int
}

func (p *tp) word(ws ...string) bool {
	if p.i+len(ws) > len(p.t) {
		return false
	}
	for k, w := range ws {
		if p.t[p.i+k].kind != "word" || !strings.EqualFold(p.t[p.i+k].val, w) {
			return false
		}
	}
	p.i += len(ws)
	return true
}
func (p *tp) punct(c string) bool {
	if p.i < len(p.t) && p.t[p.i].kind == "punct" && p.t[p.i].val == c {
		p.i++
		return true
	}
	return false
}
func (p *tp) ident(dialect string) (string, bool) {
	if p.i < len(p.t) && p.t[p.i].kind != "punct" {
		v := p.t[p.i].val
		if p.t[p.i].kind == "word" && dialect != "mysql" {
			v = strings.ToLower(v)
		}
		p.i++
		return v, true
	}
	return "", false
}
func (p *tp) cols(dialect string) ([]string, bool) {
	if !p.punct("(") {
		return nil, false
	}
	var res []string
	for {
		c, ok := p.ident(dialect)
		if !ok {
			return nil, false
		}
		res = append(res, c)
		if p.punct(",") {
			continue
		}
		if p.punct(")") {
			return res, true
		}
		return nil, false
	}
}
func (p *tp) done() bool {
	for p.punct(";") {
	}
	return p.i == len(p.t)
}

// parseDDL recognises one single statement creating or dropping one index, in any of its usual spellings.
func parseDDL(s, dialect string) *ddl {
	ts, ok := lexSQL(s, dialect)
	if !ok {
		return nil
	}
	p := &tp{t: ts}
	d := &ddl{}
	switch {
	case p.word("create"):
		d.kind = "create"
		p.word("unique")
		if !p.word("index") {
			return nil
		}
		p.word("concurrently")
		p.word("if", "not", "exists")
		if d.name, ok = p.ident(dialect); !ok {
			return nil
		}
		if !p.word("on") {
			return nil
		}
		p.word("only")
		if d.table, ok = p.ident(dialect); !ok {
			return nil
		}
		if p.punct(".") {
			if d.table, ok = p.ident(dialect); !ok {
				return nil
			}
		}
		if p.word("using") {
			p.ident(dialect)
		}
		if d.cols, ok = p.cols(dialect); !ok {
			return nil
		}
		if p.word("using") {
			p.ident(dialect)
		}
	case p.word("alter", "table"):
		if d.table, ok = p.ident(dialect); !ok {
			return nil
		}
		if p.punct(".") {
			if d.table, ok = p.ident(dialect); !ok {
				return nil
			}
		}
		switch {
		case p.word("add", "index"), p.word("add", "key"):
			d.kind = "create"
			if d.name, ok = p.ident(dialect); !ok {
				return nil
			}
			if d.cols, ok = p.cols(dialect); !ok {
				return nil
			}
		case p.word("drop", "index"), p.word("drop", "key"):
			d.kind = "drop"
			if d.name, ok = p.ident(dialect); !ok {
				return nil
			}
		default:
			return nil
		}
	case p.word("drop", "index"):
		d.kind = "drop"
		p.word("concurrently")
		p.word("if", "exists")
		if d.name, ok = p.ident(dialect); !ok {
			return nil
		}
		if p.punct(".") {
			if d.name, ok = p.ident(dialect); !ok {
				return nil
			}
		}
		if p.word("on") {
			if d.table, ok = p.ident(dialect); !ok {
				return nil
			}
		}
		p.word("cascade")
		p.word("restrict")
	default:
		return nil
	}
	if !p.done() {
		return nil
	}
	return d
}

var (
	reExplain = regexp.MustCompile(`(?is)^\s*EXPLAIN(\s*\((?:\s*(?:ANALYZE|VERBOSE|BUFFERS|COSTS|TIMING|SUMMARY|SETTINGS|WAL|FORMAT)(?:\s+\w+)?\s*,?)+\)|(?:\s+(?:ANALYZE|VERBOSE|FORMAT\s*=\s*\w+))*)\s`)
	reSelect  = regexp.MustCompile(`(?is)^\s*(\(\s*)*(SELECT|WITH|VALUES|TABLE)\b`)
	reRO      = regexp.MustCompile(`(?is)^\s*(SET|SHOW|BEGIN|START\s+TRANSACTION|COMMIT|ROLLBACK|USE|ANALYZE\s+TABLE)\b[^;]*;?\s*$`)
	reCatalog = regexp.MustCompile(`(?is)information_schema|pg_class|pg_index|pg_attribute|pg_catalog|pg_indexes`)
)

// several says whether text holds something after the end of its first statement.
func several(text, dialect string) bool {
	ended := false
	for i := 0; i < len(text); i++ {
		c := text[i]
		switch {
		case c == '\'' || c == '"' || c == '`':
			if ended {
				return true
			}
			for i++; i < len(text) && text[i] != c; i++ {
				if text[i] == '\\' && dialect == "mysql" && c != '`' {
					i++
				}
			}
		case strings.HasPrefix(text[i:], "--"):
			for i < len(text) && text[i] != '\n' {
				i++
			}
		case strings.HasPrefix(text[i:], "/*"):
			if n := strings.Index(text[i+2:], "*/"); n >= 0 {
				i += n + 3
			} else {
				return true
			}
		case c == ';':
			ended = true
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
		default:
			if ended {
				return true
			}
		}
	}
	return false
}

// classify says what a statement is, from its text alone and the user's query.
func classify(text, query, dialect string) Event {
	ev := Event{Text: text}
	if query != "" && text == query {
		ev.Kind, ev.Same = "exec", true
		return ev
	}
	if m := reExplain.FindStringSubmatchIndex(text); m != nil {
		ev.Kind = "explain"
		opts := strings.ToLower(text[m[2]:m[3]])
		ev.Analyze = strings.Contains(opts, "analyze")
		ev.Same = text[m[1]:] == query
		return ev
	}
	if d := parseDDL(text, dialect); d != nil {
		ev.Kind, ev.Name, ev.Table, ev.Cols = d.kind, d.name, d.table, d.cols
		return ev
	}
	low := strings.ToLower(text)
	if reSelect.MatchString(text) && reCatalog.MatchString(text) && !several(text, dialect) {
		switch {
		case strings.Contains(low, "information_schema.columns"), strings.Contains(low, "pg_attribute"):
			ev.Kind = "columns"
		case strings.Contains(low, "information_schema.statistics"), strings.Contains(low, "pg_index"):
			ev.Kind = "indexes"
		default:
			ev.Kind = "catalog"
		}
		return ev
	}
	if reSelect.MatchString(text) && !several(text, dialect) {
		ev.Kind = "exec"
		return ev
	}
	ev.Kind = "other"
	ev.RO = reRO.MatchString(text)
	return ev
}
