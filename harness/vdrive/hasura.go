package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"time"
)

type httpStand struct {
	l     net.Listener
	srv   *http.Server
	other *http.Server
}

func (s *httpStand) Addr() string { return s.l.Addr().String() }
func (s *httpStand) Close() {
	s.srv.Close()
	if s.other != nil {
		s.other.Close()
	}
}

func startHasura(rec *Rec) (Stand, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	h := &hasuraHandler{rec: rec}
	s := &httpStand{l: l, srv: &http.Server{Handler: h}}
	go s.srv.Serve(l)
	for _, f := range rec.sc.Server.Faults {
		if f.Mode == "redirect-other" && s.other == nil {
			// another server, to which this one redirects
			l2, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				return nil, err
			}
			_, port, _ := net.SplitHostPort(l2.Addr().String())
			h.other = "http://localhost:" + port
			s.other = &http.Server{Handler: http.HandlerFunc(h.elsewhere)}
			go s.other.Serve(l2)
		}
	}
	return s, nil
}

type hasuraHandler struct {
	rec   *Rec
	other string
}

// elsewhere records a request that came to the other server: every header of it counts.
func (h *hasuraHandler) elsewhere(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	var hs strings.Builder
	r.Header.Write(&hs)
	ev := Event{Kind: "elsewhere", Path: r.URL.Path, RawPath: r.RequestURI, Header: hs.String()}
	if json.Valid(body) {
		ev.Body = body
	}
	i, _ := h.rec.begin(ev)
	h.rec.end(i, "err", false)
	w.WriteHeader(401)
}

func hangup(w http.ResponseWriter) {
	if hj, ok := w.(http.Hijacker); ok {
		c, _, err := hj.Hijack()
		if err == nil {
			c.Close()
		}
	}
}

func (h *hasuraHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	rec := h.rec
	body, _ := io.ReadAll(r.Body)
	path := strings.TrimPrefix(r.URL.Path, strings.TrimSuffix(rec.sc.Server.BasePath, "/"))
	ev := Event{Path: r.URL.Path, RawPath: r.RequestURI, Header: r.Header.Get("x-hasura-admin-secret")}
	if json.Valid(body) {
		ev.Body = body
	}
	type runSQL struct {
		Type string `json:"type"`
		Args struct {
			SQL      string `json:"sql"`
			ReadOnly *bool  `json:"read_only"`
		} `json:"args"`
	}
	var sqlText string
	switch {
	case path == "/v1/graphql/explain":
		ev.Kind = "explain"
		var b struct {
			Query struct {
				Query string `json:"query"`
			} `json:"query"`
		}
		json.Unmarshal(body, &b)
		ev.Text = b.Query.Query
		ev.Same = ev.Text == rec.sc.Query
	case path == "/v1/graphql":
		ev.Kind = "exec"
		var b struct {
			Query string `json:"query"`
		}
		json.Unmarshal(body, &b)
		ev.Text = b.Query
		ev.Same = ev.Text == rec.sc.Query
	case path == "/v2/query":
		var b runSQL
		json.Unmarshal(body, &b)
		sqlText = b.Args.SQL
		e2 := classify(sqlText, "", "postgres")
		e2.Path, e2.RawPath, e2.Header, e2.Body = ev.Path, ev.RawPath, ev.Header, ev.Body
		ev = e2
		ev.RO = b.Args.ReadOnly != nil && *b.Args.ReadOnly && !several(ev.Text, "pg")
		if b.Type != "run_sql" {
			ev.Kind = "other"
		}
	default:
		ev.Kind = "other"
	}
	i, f := rec.begin(ev)
	if f != nil && f.Ms > 0 {
		time.Sleep(time.Duration(f.Ms) * time.Millisecond)
	}
	mode := ""
	if f != nil {
		mode = f.Mode
	}
	fail := func(status int, msg string) {
		rec.end(i, "err", false)
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(status)
		fmt.Fprintf(w, `{"error":%q,"path":"$","code":"unexpected"}`, msg)
	}
	switch mode {
	case "err":
		fail(400, "stand-in error")
		return
	case "http500":
		fail(500, "stand-in error")
		return
	case "http200err":
		// a GraphQL server answers a failed operation with status 200 and an errors member
		rec.end(i, "err", false)
		fmt.Fprint(w, `{"errors":[{"extensions":{"path":"$","code":"unexpected"},"message":"database query error"}]}`)
		return
	case "badjson":
		rec.end(i, "err", false)
		fmt.Fprint(w, `<html>gateway</html>`)
		return
	case "close":
		rec.end(i, "lost", false)
		hangup(w)
		return
	case "redirect-other":
		rec.end(i, "err", false)
		w.Header().Set("Location", h.other+r.URL.Path)
		w.WriteHeader([]int{302, 307, 308}[i%3])
		return
	case "redirect-same":
		rec.end(i, "err", false)
		w.Header().Set("Location", "http://"+r.Host+r.URL.Path)
		w.WriteHeader(307)
		return
	case "empty", "null", "nulls", "strings":
		// valid JSON that is not an answer
		rec.end(i, "odd", false)
		fmt.Fprint(w, map[string]string{"empty": "{}", "null": "null", "nulls": "[null]", "strings": `{"result_type":"TuplesOk","result":[["a"],["b"]]}`}[mode])
		return
	}
	var res interface{}
	switch {
	case ev.Kind == "explain" && path == "/v1/graphql/explain":
		n := 1
		if rec.sc.Server.NExplain != nil {
			n = *rec.sc.Server.NExplain
		}
		var l []interface{}
		for k := 0; k < n; k++ {
			l = append(l, map[string]interface{}{"field": "f", "plan": rec.sc.Server.Explain, "sql": rec.sc.Server.SQL})
		}
		if l == nil {
			l = []interface{}{}
		}
		res = l
	case ev.Kind == "exec" && path == "/v1/graphql":
		res = map[string]interface{}{"data": map[string]interface{}{}}
	case path == "/v2/query":
		if (ev.Kind == "create" || ev.Kind == "drop") && ev.RO {
			fail(400, "cannot execute DDL in a read-only transaction")
			return
		}
		rs, err := execOnDB(rec.db, ev, sqlText, nil, "postgres")
		if err != nil {
			fail(400, err.Error())
			return
		}
		if rs == nil {
			res = map[string]interface{}{"result_type": "CommandOk", "result": nil}
		} else {
			rows := [][]string{rs.cols}
			for _, r := range rs.rows {
				var o []string
				for _, v := range r {
					if v == sqlNull {
						v = "NULL"
					}
					o = append(o, v)
				}
				rows = append(rows, o)
			}
			res = map[string]interface{}{"result_type": "TuplesOk", "result": rows}
		}
	default:
		fail(404, "resource does not exist")
		return
	}
	if mode == "close_after" {
		rec.end(i, "lost", true)
		hangup(w)
		return
	}
	b, _ := json.Marshal(res)
	rec.end(i, "ok", true)
	w.Header().Set("Content-Type", "application/json")
	w.Write(b)
}
