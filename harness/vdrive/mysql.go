package main

import (
	"bufio"
	"bytes"
	"crypto/rand"
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"strconv"
	"strings"
	"time"
)

type myServer struct {
	l   net.Listener
	rec *Rec
	n   int
}

func (s *myServer) Addr() string { return s.l.Addr().String() }
func (s *myServer) Close()       { s.l.Close() }

func startMySQL(rec *Rec) (Stand, error) {
	l, err := rec.listen()
	if err != nil {
		return nil, err
	}
	s := &myServer{l: l, rec: rec}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.n++
			mc := &myConn{s: s, c: c, id: s.n, r: bufio.NewReader(c), stmts: map[uint32]*myStmt{}}
			go mc.serve()
		}
	}()
	return s, nil
}

type myStmt struct {
	text  string
	n     int
	types []byte
}

type myConn struct {
	s     *myServer
	c     net.Conn
	id    int
	r     *bufio.Reader
	seq   byte
	stmts map[uint32]*myStmt
	nst   uint32
}

func (c *myConn) read() ([]byte, error) {
	var res []byte
	for {
		h := make([]byte, 4)
		if _, err := io.ReadFull(c.r, h); err != nil {
			return nil, err
		}
		n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
		c.seq = h[3] + 1
		b := make([]byte, n)
		if _, err := io.ReadFull(c.r, b); err != nil {
			return nil, err
		}
		res = append(res, b...)
		if n < 0xffffff {
			return res, nil
		}
	}
}

func (c *myConn) write(b []byte) {
	for {
		n := len(b)
		if n > 0xffffff {
			n = 0xffffff
		}
		h := []byte{byte(n), byte(n >> 8), byte(n >> 16), c.seq}
		c.seq++
		c.c.Write(append(h, b[:n]...))
		b = b[n:]
		if n < 0xffffff {
			return
		}
	}
}

func lenc(n uint64) []byte {
	switch {
	case n < 251:
		return []byte{byte(n)}
	case n < 1<<16:
		return []byte{0xfc, byte(n), byte(n >> 8)}
	case n < 1<<24:
		return []byte{0xfd, byte(n), byte(n >> 8), byte(n >> 16)}
	default:
		b := make([]byte, 9)
		b[0] = 0xfe
		binary.LittleEndian.PutUint64(b[1:], n)
		return b
	}
}
func lstr(s string) []byte { return append(lenc(uint64(len(s))), s...) }

func (c *myConn) ok()  { c.write([]byte{0, 0, 0, 2, 0, 0, 0}) }
func (c *myConn) eof() { c.write([]byte{0xfe, 0, 0, 2, 0}) }
func (c *myConn) err(code int, msg string) {
	b := []byte{0xff, byte(code), byte(code >> 8)}
	b = append(b, "#42000"...)
	c.write(append(b, msg...))
}

func (c *myConn) coldef(name string) {
	var b []byte
	b = append(b, lstr("def")...)
	b = append(b, lstr("")...)
	b = append(b, lstr("")...)
	b = append(b, lstr("")...)
	b = append(b, lstr(name)...)
	b = append(b, lstr(name)...)
	b = append(b, 0x0c, 33, 0, 0, 0, 1, 0, 0xfd, 0, 0, 0, 0, 0)
	c.write(b)
}

func (c *myConn) result(rs *resultSet, binaryRows bool) {
	c.write(lenc(uint64(len(rs.cols))))
	for _, n := range rs.cols {
		c.coldef(n)
	}
	c.eof()
	for _, row := range rs.rows {
		var b []byte
		if binaryRows {
			b = append(b, 0)
			b = append(b, make([]byte, (len(row)+7+2)/8)...)
		}
		for k, v := range row {
			if v == sqlNull {
				if binaryRows {
					b[1+(k+2)/8] |= 1 << ((k + 2) % 8)
				} else {
					b = append(b, 0xfb)
				}
				continue
			}
			b = append(b, lstr(v)...)
		}
		c.write(b)
	}
	c.eof()
}

func nativeAuth(pass string, salt []byte) []byte {
	if pass == "" {
		return nil
	}
	h1 := sha1.Sum([]byte(pass))
	h2 := sha1.Sum(h1[:])
	h := sha1.New()
	h.Write(salt)
	h.Write(h2[:])
	h3 := h.Sum(nil)
	for i := range h3 {
		h3[i] ^= h1[i]
	}
	return h3
}

func (c *myConn) serve() {
	defer c.c.Close()
	salt := make([]byte, 20)
	rand.Read(salt)
	for i := range salt {
		salt[i] = salt[i]%94 + 33
	}
	caps := uint32(0x00000001 | 0x00000008 | 0x00000200 | 0x00002000 | 0x00008000 | 0x00010000 | 0x00020000 | 0x00080000)
	b := []byte{10}
	b = append(b, "8.0.31\x00"...)
	b = append(b, byte(c.id), 0, 0, 0)
	b = append(b, salt[:8]...)
	b = append(b, 0, byte(caps), byte(caps>>8), 33, 2, 0, byte(caps>>16), byte(caps>>24), 21)
	b = append(b, make([]byte, 10)...)
	b = append(b, salt[8:]...)
	b = append(b, 0)
	b = append(b, "mysql_native_password\x00"...)
	c.seq = 0
	c.write(b)
	p, err := c.read()
	if err != nil || len(p) < 33 {
		return
	}
	fl := binary.LittleEndian.Uint32(p)
	q := p[32:]
	ui := bytes.IndexByte(q, 0)
	if ui < 0 {
		return
	}
	user := string(q[:ui])
	q = q[ui+1:]
	al := int(q[0])
	auth := q[1 : 1+al]
	q = q[1+al:]
	db := ""
	if fl&8 != 0 {
		di := bytes.IndexByte(q, 0)
		if di >= 0 {
			db = string(q[:di])
		}
	}
	pass := "wrong"
	if bytes.Equal(auth, nativeAuth(c.s.rec.sc.Server.Password, salt)) {
		pass = "right"
	}
	i, f := c.s.rec.begin(Event{Kind: "connect", Conn: c.id, User: user, DB: db, Pass: pass})
	if f != nil && f.Ms > 0 {
		time.Sleep(time.Duration(f.Ms) * time.Millisecond)
	}
	if f != nil && f.Mode != "" {
		if f.Mode == "err" {
			c.s.rec.end(i, "err", false)
			c.err(1045, "access denied (stand-in)")
		}
		return
	}
	if pass == "wrong" {
		c.s.rec.end(i, "err", false)
		c.err(1045, "access denied: wrong password (stand-in)")
		return
	}
	c.s.rec.end(i, "ok", false)
	c.ok()
	for {
		p, err := c.read()
		if err != nil || len(p) == 0 {
			return
		}
		switch p[0] {
		case 1:
			return
		case 2, 14:
			c.ok()
		case 3:
			if !c.statement(string(p[1:]), nil, false) {
				return
			}
		case 22:
			c.nst++
			st := &myStmt{text: string(p[1:])}
			st.n = countPlaceholders(st.text)
			c.stmts[c.nst] = st
			b := []byte{0, byte(c.nst), byte(c.nst >> 8), byte(c.nst >> 16), byte(c.nst >> 24), 0, 0, byte(st.n), byte(st.n >> 8), 0, 0, 0}
			c.write(b)
			if st.n > 0 {
				for k := 0; k < st.n; k++ {
					c.coldef("?")
				}
				c.eof()
			}
		case 23:
			id := binary.LittleEndian.Uint32(p[1:])
			st := c.stmts[id]
			if st == nil {
				c.err(1243, "unknown statement")
				continue
			}
			args, err := decodeArgs(st, p[10:])
			if err != nil {
				c.err(1210, err.Error())
				continue
			}
			if !c.statement(st.text, args, true) {
				return
			}
		case 25:
			delete(c.stmts, binary.LittleEndian.Uint32(p[1:]))
		default:
			c.err(1047, "unknown command")
		}
	}
}

func countPlaceholders(s string) int {
	n := 0
	var q byte
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if q != 0 {
			if ch == '\\' && q != '`' {
				i++
			} else if ch == q {
				q = 0
			}
			continue
		}
		switch ch {
		case '\'', '"', '`':
			q = ch
		case '?':
			n++
		}
	}
	return n
}

func decodeArgs(st *myStmt, p []byte) ([]string, error) {
	if st.n == 0 {
		return nil, nil
	}
	nb := (st.n + 7) / 8
	if len(p) < nb+1 {
		return nil, fmt.Errorf("short execute packet")
	}
	nulls := p[:nb]
	p = p[nb:]
	newTypes := p[0] == 1
	p = p[1:]
	if newTypes {
		st.types = append([]byte{}, p[:2*st.n]...)
		p = p[2*st.n:]
	}
	var args []string
	for k := 0; k < st.n; k++ {
		if nulls[k/8]&(1<<(k%8)) != 0 {
			args = append(args, "NULL")
			continue
		}
		switch st.types[2*k] {
		case 8:
			args = append(args, strconv.FormatInt(int64(binary.LittleEndian.Uint64(p)), 10))
			p = p[8:]
		case 5:
			args = append(args, fmt.Sprint(math.Float64frombits(binary.LittleEndian.Uint64(p))))
			p = p[8:]
		default:
			n := uint64(p[0])
			p = p[1:]
			switch n {
			case 0xfc:
				n = uint64(binary.LittleEndian.Uint16(p))
				p = p[2:]
			case 0xfd:
				n = uint64(p[0]) | uint64(p[1])<<8 | uint64(p[2])<<16
				p = p[3:]
			case 0xfe:
				n = binary.LittleEndian.Uint64(p)
				p = p[8:]
			}
			args = append(args, string(p[:n]))
			p = p[n:]
		}
	}
	return args, nil
}

// statement runs one statement; false means the connection is gone.
func (c *myConn) statement(text string, args []string, bin bool) bool {
	rec := c.s.rec
	ev := classify(text, rec.sc.Query, "mysql")
	ev.Conn, ev.Args = c.id, args
	i, f := rec.begin(ev)
	if f != nil && f.Ms > 0 {
		time.Sleep(time.Duration(f.Ms) * time.Millisecond)
	}
	mode := ""
	if f != nil {
		mode = f.Mode
	}
	switch mode {
	case "err":
		rec.end(i, "err", false)
		c.err(1105, "stand-in error")
		return true
	case "close":
		rec.end(i, "lost", false)
		return false
	}
	rs, err := execOnDB(rec.db, ev, text, args, "mysql")
	if err != nil {
		rec.end(i, "err", false)
		c.err(1105, err.Error())
		return true
	}
	if mode == "close_after" {
		rec.end(i, "lost", true)
		return false
	}
	rec.end(i, "ok", true)
	if rs == nil {
		c.ok()
	} else {
		c.result(rs, bin)
	}
	return true
}

// execOnDB carries a statement out on the abstract database.
func execOnDB(db *DBState, ev Event, text string, args []string, dialect string) (*resultSet, error) {
	switch ev.Kind {
	case "create":
		return nil, db.create(ev, dialect == "mysql")
	case "drop":
		return nil, db.drop(ev, dialect == "mysql")
	case "explain":
		rs := &resultSet{cols: []string{"EXPLAIN"}, typ: []string{"text"}}
		if dialect == "mysql" {
			rs.rows = [][]string{{strings.Join(db.sc.Server.Explain, "\n")}}
		} else {
			rs.cols[0] = "QUERY PLAN"
			for _, l := range db.sc.Server.Explain {
				rs.rows = append(rs.rows, []string{l})
			}
		}
		return rs, nil
	case "columns", "indexes", "catalog":
		if rs, err := db.evalCatalog(text, args, dialect); err == nil {
			return rs, nil
		} else if os.Getenv("VDRIVE_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "beyond the evaluator:", err, text)
		}
		if ev.Kind == "catalog" {
			return &resultSet{cols: []string{"x"}, typ: []string{"text"}}, nil
		}
		return db.catalog(ev.Kind, text, append(append([]string{}, args...), literals(text, dialect)...), dialect)
	case "exec":
		return &resultSet{cols: []string{"x"}, typ: []string{"text"}, rows: [][]string{{"1"}}}, nil
	default:
		return nil, nil
	}
}
