package main

import (
	"encoding/json"
	"fmt"
	"html"
	"io"
	"net"
	"net/http"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type AwsDB struct {
	ID     string `json:"id"`
	RID    string `json:"rid"`
	Engine string `json:"engine"`
}

type AwsPoint struct {
	RID  string   `json:"rid"`
	Tok  bool     `json:"tok"`
	SQL  string   `json:"sql"`
	TID  string   `json:"tid"`
	T    float64  `json:"t"`
	V    *float64 `json:"v"`
	NoTS bool     `json:"nots"`
}

type AwsSpec struct {
	DBs    []AwsDB    `json:"dbs"`
	Page   int        `json:"page"`   // RDS page size, 0 = one page
	PiPage int        `json:"pipage"` // PI page size (metrics per page), 0 = one page
	Points []AwsPoint `json:"points"`
}

type awsStand struct {
	rec *Rec
	key string
}

var awsMu sync.Mutex
var awsRecs = map[string]*awsStand{}
var awsSeq int

func (s *awsStand) Addr() string { return "localhost:8080" }
func (s *awsStand) Close() {
	awsMu.Lock()
	delete(awsRecs, s.key)
	awsMu.Unlock()
}

var reEnv = regexp.MustCompile(`exec-env/(vrun\d+)`)

func openAwsPort() error {
	var ls []net.Listener
	l4, err := net.Listen("tcp4", "127.0.0.1:8080")
	if err != nil {
		return err
	}
	ls = append(ls, l4)
	if l6, err := net.Listen("tcp6", "[::1]:8080"); err == nil {
		ls = append(ls, l6)
	}
	for _, l := range ls {
		go http.Serve(l, http.HandlerFunc(awsHandle))
	}
	return nil
}

func startAws(rec *Rec) (Stand, error) {
	awsMu.Lock()
	defer awsMu.Unlock()
	awsSeq++
	s := &awsStand{rec: rec, key: fmt.Sprintf("vrun%d", awsSeq)}
	awsRecs[s.key] = s
	env := map[string]string{}
	for k, v := range rec.sc.Env {
		env[k] = v
	}
	env["AWS_EXECUTION_ENV"] = s.key
	sc := *rec.sc
	sc.Env = env
	rec.sc = &sc
	return s, nil
}

func awsHandle(w http.ResponseWriter, r *http.Request) {
	m := reEnv.FindStringSubmatch(r.Header.Get("User-Agent") + " " + r.Header.Get("X-Amz-User-Agent"))
	if m == nil {
		http.Error(w, "no run", 500)
		return
	}
	awsMu.Lock()
	s := awsRecs[m[1]]
	awsMu.Unlock()
	if s == nil {
		http.Error(w, "unknown run", 500)
		return
	}
	body, _ := io.ReadAll(r.Body)
	serveAws(w, r, body, s.rec, Event{Path: "localhost:8080", RawPath: r.RequestURI})
}

// serveAws answers one request to RDS or PI; ev holds what is known about its sender.
func serveAws(w http.ResponseWriter, r *http.Request, body []byte, rec *Rec, ev Event) {
	sp := rec.sc.Server.Aws
	if strings.Contains(r.Header.Get("X-Amz-Target"), "GetResourceMetrics") {
		var q struct {
			Identifier      string
			ServiceType     string
			StartTime       float64
			EndTime         float64
			PeriodInSeconds int
			NextToken       string
			MetricQueries   []struct {
				Metric  string
				GroupBy struct {
					Group string
					Limit int
				}
			}
		}
		json.Unmarshal(body, &q)
		ev.Kind, ev.Body = "pi", body
		i, f := rec.begin(ev)
		if f != nil && f.Mode != "" {
			awsFault(w, rec, i, f)
			return
		}
		if len(q.MetricQueries) != 1 {
			rec.end(i, "err", false)
			http.Error(w, "bad", 400)
			return
		}
		grp := q.MetricQueries[0].GroupBy.Group
		tok := grp == "db.sql_tokenized"
		sqlKey, idKey := "db.sql.statement", "db.sql.tokenized_id"
		if tok {
			sqlKey, idKey = "db.sql_tokenized.statement", "db.sql_tokenized.id"
		}
		type k struct{ sql, tid string }
		groups := map[k][]AwsPoint{}
		var keys []k
		for _, p := range sp.Points {
			if p.RID != q.Identifier || p.Tok != tok || p.T < q.StartTime || p.T >= q.EndTime {
				continue
			}
			kk := k{p.SQL, p.TID}
			if _, ok := groups[kk]; !ok {
				keys = append(keys, kk)
			}
			groups[kk] = append(groups[kk], p)
		}
		sort.SliceStable(keys, func(a, b int) bool { return keys[a].sql+"\x00"+keys[a].tid < keys[b].sql+"\x00"+keys[b].tid })
		var list []interface{}
		// the total over all statements comes first and has no dimensions
		list = append(list, map[string]interface{}{
			"Key": map[string]interface{}{"Metric": "db.load.avg"}, "DataPoints": []interface{}{map[string]interface{}{"Timestamp": q.StartTime, "Value": 7.5}},
		})
		for _, kk := range keys {
			var dps []interface{}
			for _, p := range groups[kk] {
				dp := map[string]interface{}{}
				if !p.NoTS {
					dp["Timestamp"] = p.T
				}
				if p.V != nil {
					dp["Value"] = *p.V
				}
				dps = append(dps, dp)
			}
			gname := strings.TrimSuffix(sqlKey, ".statement")
			list = append(list, map[string]interface{}{
				"Key": map[string]interface{}{"Metric": "db.load.avg", "Dimensions": map[string]string{
					sqlKey: kk.sql, idKey: kk.tid, gname + ".db_id": "x", gname + ".id_": "y"}},
				"DataPoints": dps,
			})
		}
		res := map[string]interface{}{"AlignedStartTime": q.StartTime, "AlignedEndTime": q.EndTime, "Identifier": q.Identifier}
		if sp.PiPage > 0 {
			off, _ := strconv.Atoi(q.NextToken)
			end := off + sp.PiPage
			if end < len(list) {
				res["NextToken"] = strconv.Itoa(end)
			} else {
				end = len(list)
			}
			list = list[off:end]
		}
		res["MetricList"] = list
		rec.end(i, "ok", true)
		w.Header().Set("Content-Type", "application/x-amz-json-1.1")
		b, _ := json.Marshal(res)
		w.Write(b)
		return
	}
	form, _ := url.ParseQuery(string(body))
	fb, _ := json.Marshal(form)
	ev.Kind, ev.Body, ev.Text = "rds", fb, form.Get("Action")
	i, f := rec.begin(ev)
	if f != nil && f.Mode != "" {
		awsFault(w, rec, i, f)
		return
	}
	var engines []string
	for n := 1; ; n++ {
		v := form.Get(fmt.Sprintf("Filters.Filter.1.Values.Value.%d", n))
		if v == "" {
			break
		}
		engines = append(engines, v)
	}
	filtered := form.Get("Filters.Filter.1.Name") == "engine"
	var dbs []AwsDB
	for _, d := range sp.DBs {
		ok := !filtered
		for _, e := range engines {
			ok = ok || e == d.Engine
		}
		if ok {
			dbs = append(dbs, d)
		}
	}
	marker := ""
	if sp.Page > 0 {
		off, _ := strconv.Atoi(form.Get("Marker"))
		end := off + sp.Page
		if end < len(dbs) {
			marker = fmt.Sprintf("<Marker>%d</Marker>", end)
		} else {
			end = len(dbs)
		}
		dbs = dbs[off:end]
	}
	var sb strings.Builder
	sb.WriteString(`<DescribeDBInstancesResponse xmlns="http://rds.amazonaws.com/doc/2014-10-31/"><DescribeDBInstancesResult>` + marker + `<DBInstances>`)
	for _, d := range dbs {
		sb.WriteString("<DBInstance><DBInstanceIdentifier>" + html.EscapeString(d.ID) + "</DBInstanceIdentifier><DbiResourceId>" + html.EscapeString(d.RID) + "</DbiResourceId><Engine>" + d.Engine + "</Engine></DBInstance>")
	}
	sb.WriteString(`</DBInstances></DescribeDBInstancesResult><ResponseMetadata><RequestId>1</RequestId></ResponseMetadata></DescribeDBInstancesResponse>`)
	rec.end(i, "ok", true)
	w.Header().Set("Content-Type", "text/xml")
	io.WriteString(w, sb.String())
}

func awsFault(w http.ResponseWriter, rec *Rec, i int, f *Fault) {
	if f.Ms > 0 {
		time.Sleep(time.Duration(f.Ms) * time.Millisecond)
	}
	switch f.Mode {
	case "close":
		rec.end(i, "lost", false)
		hangup(w)
	case "noname":
		// answers that lack optional members
		rec.end(i, "odd", false)
		if ev := rec.events[i]; ev.Kind == "pi" {
			w.Header().Set("Content-Type", "application/x-amz-json-1.1")
			io.WriteString(w, `{"MetricList":[{},{"Key":{}},{"Key":{"Metric":"db.load.avg","Dimensions":{}}},{"Key":{"Metric":"db.load.avg","Dimensions":{"db.sql.statement":"SELECT 1"}},"DataPoints":[{},{"Value":1}]}]}`)
		} else {
			w.Header().Set("Content-Type", "text/xml")
			io.WriteString(w, `<DescribeDBInstancesResponse xmlns="http://rds.amazonaws.com/doc/2014-10-31/"><DescribeDBInstancesResult><DBInstances><DBInstance><Engine>mysql</Engine></DBInstance></DBInstances></DescribeDBInstancesResult></DescribeDBInstancesResponse>`)
		}
	case "badjson":
		rec.end(i, "err", false)
		io.WriteString(w, "<html>gateway")
	default:
		rec.end(i, "err", false)
		w.Header().Set("X-Amzn-Errortype", "InvalidArgumentException")
		w.Header().Set("Content-Type", "application/x-amz-json-1.1")
		w.WriteHeader(400)
		io.WriteString(w, `{"__type":"InvalidArgumentException","message":"stand-in error"}`)
	}
}
