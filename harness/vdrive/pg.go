package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"io"
	"net"
	"strings"
	"sync"
	"time"
)

type pgServer struct {
	l   net.Listener
	rec *Rec
	n   int
}

func (s *pgServer) Addr() string { return s.l.Addr().String() }
func (s *pgServer) Close()       { s.l.Close() }

func startPG(rec *Rec) (Stand, error) {
	l, err := rec.listen()
	if err != nil {
		return nil, err
	}
	s := &pgServer{l: l, rec: rec}
	var mu sync.Mutex
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			s.n++
			id := s.n
			mu.Unlock()
			pc := &pgConn{s: s, c: c, id: id, r: bufio.NewReader(c), prepared: map[string]string{}}
			go pc.serve()
		}
	}()
	return s, nil
}

type pgConn struct {
	s        *pgServer
	c        net.Conn
	id       int
	r        *bufio.Reader
	prepared map[string]string
	bound    string
	args     []string
	failed   bool
	out      bytes.Buffer
}

func (c *pgConn) msg(t byte, b []byte) {
	c.out.WriteByte(t)
	binary.Write(&c.out, binary.BigEndian, int32(len(b)+4))
	c.out.Write(b)
}
func (c *pgConn) flush() {
	c.c.Write(c.out.Bytes())
	c.out.Reset()
}
func (c *pgConn) ready() { c.msg('Z', []byte{'I'}); c.flush() }
func (c *pgConn) err(code, m string) {
	c.msg('E', []byte("SERROR\x00VERROR\x00C"+code+"\x00M"+m+"\x00\x00"))
}
func (c *pgConn) readMsg() (byte, []byte, error) {
	t, err := c.r.ReadByte()
	if err != nil {
		return 0, nil, err
	}
	var n int32
	if err := binary.Read(c.r, binary.BigEndian, &n); err != nil {
		return 0, nil, err
	}
	b := make([]byte, n-4)
	_, err = io.ReadFull(c.r, b)
	return t, b, err
}

func cstr(b []byte) (string, []byte) {
	i := bytes.IndexByte(b, 0)
	if i < 0 {
		return string(b), nil
	}
	return string(b[:i]), b[i+1:]
}

func oid(t string) int32 {
	switch t {
	case "bool":
		return 16
	case "textarray":
		return 1009
	}
	return 25
}

func (c *pgConn) rowDesc(rs *resultSet) {
	var b bytes.Buffer
	binary.Write(&b, binary.BigEndian, int16(len(rs.cols)))
	for i, n := range rs.cols {
		b.WriteString(n)
		b.WriteByte(0)
		binary.Write(&b, binary.BigEndian, int32(0))
		binary.Write(&b, binary.BigEndian, int16(0))
		binary.Write(&b, binary.BigEndian, oid(rs.typ[i]))
		binary.Write(&b, binary.BigEndian, int16(-1))
		binary.Write(&b, binary.BigEndian, int32(-1))
		binary.Write(&b, binary.BigEndian, int16(0))
	}
	c.msg('T', b.Bytes())
}
func (c *pgConn) rows(rs *resultSet) {
	for _, r := range rs.rows {
		var b bytes.Buffer
		binary.Write(&b, binary.BigEndian, int16(len(r)))
		for _, v := range r {
			if v == sqlNull {
				binary.Write(&b, binary.BigEndian, int32(-1))
				continue
			}
			binary.Write(&b, binary.BigEndian, int32(len(v)))
			b.WriteString(v)
		}
		c.msg('D', b.Bytes())
	}
}

func (c *pgConn) serve() {
	defer c.c.Close()
	params := map[string]string{}
	for {
		var n int32
		if err := binary.Read(c.r, binary.BigEndian, &n); err != nil || n < 8 || n > 1<<20 {
			return
		}
		b := make([]byte, n-4)
		if _, err := io.ReadFull(c.r, b); err != nil {
			return
		}
		code := binary.BigEndian.Uint32(b)
		if code == 80877103 {
			k, _ := c.s.rec.begin(Event{Kind: "sslrequest", Conn: c.id})
			c.s.rec.end(k, "ok", false)
			c.c.Write([]byte{'N'})
			continue
		}
		if code == 80877102 { // cancel
			return
		}
		b = b[4:]
		for len(b) > 0 && b[0] != 0 {
			var k, v string
			k, b = cstr(b)
			v, b = cstr(b)
			params[k] = v
		}
		break
	}
	c.msg('R', []byte{0, 0, 0, 3})
	c.flush()
	t, b, err := c.readMsg()
	if err != nil || t != 'p' {
		return
	}
	pass, _ := cstr(b)
	i, f := c.s.rec.begin(Event{Kind: "connect", Conn: c.id, User: params["user"], DB: params["database"], Pass: pass, Params: params})
	if f != nil && f.Mode != "" {
		if f.Mode == "err" {
			c.s.rec.end(i, "err", false)
			c.err("28000", "access denied (stand-in)")
			c.flush()
		}
		return
	}
	c.s.rec.end(i, "ok", false)
	c.msg('R', []byte{0, 0, 0, 0})
	c.msg('S', []byte("server_version\x0014.5\x00"))
	c.msg('S', []byte("client_encoding\x00UTF8\x00"))
	c.msg('S', []byte("TimeZone\x00UTC\x00"))
	c.msg('K', []byte{0, 0, 0, 1, 0, 0, 0, 2})
	c.ready()
	for {
		t, b, err := c.readMsg()
		if err != nil {
			return
		}
		switch t {
		case 'X':
			return
		case 'Q':
			q, _ := cstr(b)
			if strings.TrimSpace(strings.Trim(strings.TrimSpace(q), ";")) == "" {
				c.msg('I', nil)
				c.ready()
				continue
			}
			rs, alive := c.statement(q, nil)
			if !alive {
				return
			}
			if !c.failed {
				if rs != nil {
					c.rowDesc(rs)
					c.rows(rs)
				}
				c.msg('C', []byte("SELECT 1\x00"))
			}
			c.failed = false
			c.ready()
		case 'P':
			if c.failed {
				continue
			}
			name, rest := cstr(b)
			q, _ := cstr(rest)
			c.prepared[name] = q
			c.msg('1', nil)
		case 'D':
			if c.failed {
				continue
			}
			if b[0] == 'S' {
				name, _ := cstr(b[1:])
				q := c.prepared[name]
				n := countDollar(q)
				var pb bytes.Buffer
				binary.Write(&pb, binary.BigEndian, int16(n))
				for k := 0; k < n; k++ {
					binary.Write(&pb, binary.BigEndian, int32(25))
				}
				c.msg('t', pb.Bytes())
				c.describe(q)
			} else {
				c.describe(c.bound)
			}
		case 'B':
			if c.failed {
				continue
			}
			_, rest := cstr(b)
			name, rest := cstr(rest)
			c.bound = c.prepared[name]
			nf := int(binary.BigEndian.Uint16(rest))
			rest = rest[2+2*nf:]
			np := int(binary.BigEndian.Uint16(rest))
			rest = rest[2:]
			c.args = nil
			for k := 0; k < np; k++ {
				l := int32(binary.BigEndian.Uint32(rest))
				rest = rest[4:]
				if l < 0 {
					c.args = append(c.args, "NULL")
					continue
				}
				c.args = append(c.args, string(rest[:l]))
				rest = rest[l:]
			}
			c.msg('2', nil)
		case 'E':
			if c.failed {
				continue
			}
			rs, alive := c.statement(c.bound, c.args)
			if !alive {
				return
			}
			if !c.failed {
				if rs != nil {
					c.rows(rs)
				}
				c.msg('C', []byte("SELECT 1\x00"))
			}
		case 'C':
			c.msg('3', nil)
		case 'H':
			c.flush()
		case 'S':
			c.failed = false
			c.ready()
		}
	}
}

func (c *pgConn) describe(q string) {
	ev := classify(q, c.s.rec.sc.Query, "postgres")
	switch ev.Kind {
	case "columns", "indexes", "exec", "catalog", "explain":
		rs, err := execOnDB(c.s.rec.db, ev, q, nil, "postgres")
		if err == nil && rs != nil {
			c.rowDesc(rs)
			return
		}
	}
	c.msg('n', nil)
}

func countDollar(q string) int {
	n := 0
	for i := 0; i+1 < len(q); i++ {
		if q[i] == '$' && q[i+1] >= '0' && q[i+1] <= '9' {
			v := 0
			for j := i + 1; j < len(q) && q[j] >= '0' && q[j] <= '9'; j++ {
				v = v*10 + int(q[j]-'0')
			}
			if v > n {
				n = v
			}
		}
	}
	return n
}

func (c *pgConn) statement(text string, args []string) (*resultSet, bool) {
	rec := c.s.rec
	ev := classify(text, rec.sc.Query, "postgres")
	ev.Conn, ev.Args = c.id, args
	i, f := rec.begin(ev)
	if f != nil && f.Ms > 0 {
		time.Sleep(time.Duration(f.Ms) * time.Millisecond)
	}
	mode := ""
	if f != nil {
		mode = f.Mode
	}
	switch mode {
	case "err":
		rec.end(i, "err", false)
		c.err("XX000", "stand-in error")
		c.failed = true
		return nil, true
	case "close":
		rec.end(i, "lost", false)
		return nil, false
	}
	rs, err := execOnDB(rec.db, ev, text, args, "postgres")
	if err != nil {
		rec.end(i, "err", false)
		c.err("XX000", err.Error())
		c.failed = true
		return nil, true
	}
	if mode == "close_after" {
		rec.end(i, "lost", true)
		return nil, false
	}
	rec.end(i, "ok", true)
	return rs, true
}
