// vdrive: runs the real gr binary against stateful stand-in servers and records what happened.
// It judges nothing; the recorded observations are judged by TLC against /verif/spec.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Fault struct {
	Kind string `json:"kind"` // event kind or "any"
	Nth  int    `json:"nth"`  // 1-based; 0 = every
	Mode string `json:"mode"` // err, close, close_after, http500, http200err, badjson
	Ms   int    `json:"ms"`   // delay in milliseconds
}

type Column struct {
	Name string `json:"name"`
	PK   bool   `json:"pk"`
	Sys  bool   `json:"sys"`
}

type Table struct {
	Schema string   `json:"schema"`
	Name   string   `json:"name"`
	Kind   string   `json:"kind"` // r, v
	Cols   []Column `json:"cols"`
}

type Index struct {
	Schema  string   `json:"schema"`
	Table   string   `json:"table"`
	Name    string   `json:"name"`
	Cols    []string `json:"cols"`
	Primary bool     `json:"primary"`
	Unique  bool     `json:"unique"`
}

type Server struct {
	Type     string          `json:"type"`
	Tables   []Table         `json:"tables"`
	Indexes  []Index         `json:"indexes"`
	Explain  []string        `json:"explain"`
	SQL      string          `json:"sql"`      // hasura: sql of the explain result
	NExplain *int            `json:"nexplain"` // hasura: number of explain results (default 1)
	Faults   []Fault         `json:"faults"`
	Password string          `json:"password"`
	Shuffle  int64           `json:"shuffle"`
	Jaeger   *JaegerSpec     `json:"jaeger"`
	Aws      *AwsSpec        `json:"aws"`
	UnixDir  string          `json:"unixdir"`
	BasePath string          `json:"basepath"`
	Unix     bool            `json:"unix"` // listen on a socket file instead of a port
	Raw      json.RawMessage `json:"raw"`
}

type Scenario struct {
	ID        string            `json:"id"`
	Args      []string          `json:"args"`
	Env       map[string]string `json:"env"`
	Query     string            `json:"query"`
	Out       string            `json:"out"`
	PreOut    *string           `json:"preout"`
	OutDir    bool              `json:"outdir"`   // make the output path a directory (unwritable)
	OutFull   bool              `json:"outfull"`  // the output path leads to /dev/full
	NoParent  bool              `json:"noparent"` // do not make the directory of the output path
	Server    Server            `json:"server"`
	TimeoutMs int               `json:"timeout_ms"`
	Repeat    int               `json:"repeat"`
	RawHTML   bool              `json:"rawhtml"`
	OutArg    string            `json:"outarg"`  // what stands for {OUT} (default: the output path); {DIR} is the working directory
	FullErr   bool              `json:"fullerr"` // do not shorten what was printed
	Watch     []string          `json:"watch"`   // texts looked for in everything gr leaves behind
	Given     map[string]string `json:"given"`   // files in the working directory (which is also the home)
}

type Event struct {
	Seq     int               `json:"seq"`
	Conn    int               `json:"conn"`
	Kind    string            `json:"kind"`
	Text    string            `json:"text"`
	Args    []string          `json:"args,omitempty"`
	Same    bool              `json:"same"` // the text is the user's query byte for byte
	Analyze bool              `json:"analyze"`
	RO      bool              `json:"ro"`
	Name    string            `json:"name"`
	Table   string            `json:"table"`
	Cols    []string          `json:"cols,omitempty"`
	Outcome string            `json:"outcome"` // ok, err, lost
	Applied bool              `json:"applied"`
	T0      int64             `json:"t0"`
	T1      int64             `json:"t1"`
	Path    string            `json:"path,omitempty"`
	Header  string            `json:"header,omitempty"`
	Body    json.RawMessage   `json:"body,omitempty"`
	User    string            `json:"user,omitempty"`
	DB      string            `json:"db,omitempty"`
	Pass    string            `json:"pass,omitempty"`
	Live    []string          `json:"live"`              // temporary indexes that exist when the statement starts
	Params  map[string]string `json:"params,omitempty"`  // other settings presented at the login
	RawPath string            `json:"rawpath,omitempty"` // the path as it was sent
}

type HTMLInfo struct {
	Structure []string `json:"structure"`
	Scripts   int      `json:"scripts"`
	DataOK    bool     `json:"data_ok"`
	TailOK    bool     `json:"tail_ok"`
	Client    string   `json:"client"` // which bundled client the page carries
	Style     string   `json:"style"`
	Complete  bool     `json:"complete"`
	Note      string   `json:"note,omitempty"`
	Data      string   `json:"data,omitempty"` // text of the data script (with rawhtml)
}

type Obs struct {
	ID       string          `json:"id"`
	Run      int             `json:"run"`
	Exit     int             `json:"exit"`
	TimedOut bool            `json:"timed_out"`
	Stderr   string          `json:"stderr"`
	Stdout   string          `json:"stdout"`
	Panic    bool            `json:"panic"`
	Events   []Event         `json:"events"`
	TExit    int64           `json:"texit"`
	OutState string          `json:"outstate"` // absent, unchanged, written
	Report   json.RawMessage `json:"report"`
	HTML     *HTMLInfo       `json:"html"`
	Live     []string        `json:"live"` // temporary indexes left on the server at the end
	Files    []string        `json:"files"`
	T        [2]int64        `json:"t"`     // wall clock (unix ms) around the run
	Dir      string          `json:"dir"`   // the working directory of the run
	Leaks    []string        `json:"leaks"` // where a watched text was found
	DriveErr string          `json:"drive_err,omitempty"`
}

type Stand interface {
	Addr() string
	Close()
}

// Rec is the record of one run, shared by the stand-in server and the runner.
type Rec struct {
	mu     sync.Mutex
	sc     *Scenario
	start  time.Time
	events []Event
	counts map[string]int
	db     *DBState
	dir    string
}

// listen opens the port (or socket file) of a stand-in.
func (r *Rec) listen() (net.Listener, error) {
	if r.sc.Server.Unix {
		d := filepath.Join(r.dir, r.sc.Server.UnixDir)
		os.MkdirAll(d, 0755)
		return net.Listen("unix", filepath.Join(d, ".s.PGSQL.5432"))
	}
	return net.Listen("tcp", "127.0.0.1:0")
}

func (r *Rec) now() int64 { return time.Since(r.start).Microseconds() }

// begin registers a statement and says which fault applies to it.
func (r *Rec) begin(ev Event) (int, *Fault) {
	r.mu.Lock()
	defer r.mu.Unlock()
	ev.Seq = len(r.events) + 1
	ev.T0 = r.now()
	ev.Outcome = "lost"
	if r.db != nil {
		ev.Live = r.db.live()
	}
	if ev.Live == nil {
		ev.Live = []string{}
	}
	r.events = append(r.events, ev)
	r.counts[ev.Kind]++
	if ev.Kind != "connect" && ev.Kind != "sslrequest" {
		r.counts["any"]++
	}
	var res *Fault
	for i := range r.sc.Server.Faults {
		f := &r.sc.Server.Faults[i]
		if f.Kind != ev.Kind && !(f.Kind == "any" && ev.Kind != "connect") {
			continue
		}
		if f.Nth == 0 || f.Nth == r.counts[f.Kind] {
			if res == nil {
				c := *f
				res = &c
			} else {
				if f.Mode != "" {
					res.Mode = f.Mode
				}
				if f.Ms > res.Ms {
					res.Ms = f.Ms
				}
			}
		}
	}
	return ev.Seq - 1, res
}

func (r *Rec) end(i int, outcome string, applied bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.events[i].Outcome = outcome
	r.events[i].Applied = applied
	r.events[i].T1 = r.now()
}

func subst(s string, m map[string]string) string {
	for k, v := range m {
		s = strings.ReplaceAll(s, "{"+k+"}", v)
	}
	return s
}

func runOne(gr string, scratch string, sc *Scenario, run int) (obs Obs) {
	obs = Obs{ID: sc.ID, Run: run, Events: []Event{}, Live: []string{}, Files: []string{}}
	dir, err := os.MkdirTemp(scratch, "s")
	if err != nil {
		obs.DriveErr = err.Error()
		return
	}
	defer os.RemoveAll(dir)
	rec := &Rec{sc: sc, start: time.Now(), counts: map[string]int{}, dir: dir}
	sub := map[string]string{"DIR": dir}
	var st Stand
	switch sc.Server.Type {
	case "mysql":
		rec.db = newDBState(sc)
		st, err = startMySQL(rec)
	case "postgres":
		rec.db = newDBState(sc)
		st, err = startPG(rec)
	case "hasura":
		rec.db = newDBState(sc)
		st, err = startHasura(rec)
	case "jaeger":
		st, err = startJaeger(rec)
	case "aws":
		st, err = startAws(rec)
	case "awsreal":
		st, err = startAwsReal(rec, false)
	case "awswatched":
		st, err = startAwsReal(rec, true)
	case "none", "":
	default:
		err = fmt.Errorf("unknown server %q", sc.Server.Type)
	}
	if err != nil {
		obs.DriveErr = err.Error()
		return
	}
	if st != nil {
		defer st.Close()
		a := st.Addr()
		h, p, _ := strings.Cut(a, ":")
		if sc.Server.Unix {
			h, p = filepath.Dir(a), strings.TrimPrefix(filepath.Ext(a), ".")
		}
		sub["ADDR"], sub["HOST"], sub["PORT"], sub["URL"] = a, h, p, "http://"+a
	}
	for n, text := range sc.Given {
		os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0755)
		os.WriteFile(filepath.Join(dir, n), []byte(text), 0644)
	}
	outPath := ""
	if sc.Out != "" {
		outPath = filepath.Join(dir, sc.Out)
		if !sc.NoParent {
			os.MkdirAll(filepath.Dir(outPath), 0755)
		}
		if sc.OutFull {
			os.Symlink("/dev/full", outPath)
		}
		if sc.PreOut != nil {
			os.WriteFile(outPath, []byte(*sc.PreOut), 0644)
		}
		if sc.OutDir {
			os.Mkdir(outPath, 0755)
		}
	}
	args := make([]string, len(sc.Args))
	for i, a := range sc.Args {
		// only whole-word placeholders: the user's texts are passed as they are
		if a == "{OUT}" {
			a = sc.Out
			if sc.OutArg != "" {
				a = strings.ReplaceAll(sc.OutArg, "{DIR}", dir)
			}
		}
		args[i] = a
	}
	tmo := sc.TimeoutMs
	if tmo == 0 {
		tmo = 60000
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(tmo)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, gr, args...)
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TZ=UTC", "GOMAXPROCS=2"}
	for k, v := range rec.sc.Env {
		if strings.ContainsRune(v, 0) {
			obs.DriveErr = "NUL in env"
			return
		}
		cmd.Env = append(cmd.Env, k+"="+subst(v, sub))
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	obs.T[0] = time.Now().UnixMilli()
	err = cmd.Run()
	obs.T[1] = time.Now().UnixMilli()
	obs.TExit = rec.now()
	obs.TimedOut = ctx.Err() != nil
	if cmd.ProcessState == nil {
		obs.DriveErr = fmt.Sprint("cannot run gr: ", err)
		return
	}
	obs.Exit = cmd.ProcessState.ExitCode()
	obs.Dir = dir
	obs.Stderr = clip(se.String())
	obs.Stdout = clip(so.String())
	if sc.FullErr {
		obs.Stderr, obs.Stdout = se.String(), so.String()
	}
	obs.Panic = strings.Contains(se.String(), "goroutine 1 [") || strings.Contains(se.String(), "panic:")
	rec.mu.Lock()
	obs.Events = append([]Event{}, rec.events...)
	if rec.db != nil {
		obs.Live = append([]string{}, rec.db.live()...)
	}
	rec.mu.Unlock()
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if e.Name() == ".s.PGSQL.5432" {
			continue
		}
		obs.Files = append(obs.Files, e.Name())
	}
	obs.OutState = "absent"
	if outPath != "" && !sc.OutDir && !sc.OutFull {
		b, err := os.ReadFile(outPath)
		if err == nil {
			if sc.PreOut != nil && string(b) == *sc.PreOut {
				obs.OutState = "unchanged"
			} else {
				obs.OutState = "written"
				obs.Report, obs.HTML = analyseHTML(b)
				if !sc.RawHTML {
					obs.HTML.Data = ""
				}
			}
		}
	}
	obs.Leaks = leaks(sc, rec, dir, so.String(), se.String())
	if obs.Report == nil {
		obs.Report = json.RawMessage("null")
	}
	return
}

// leaks says where the watched texts are found: terminal, files, requests apart from the login.
func leaks(sc *Scenario, rec *Rec, dir, so, se string) []string {
	res := []string{}
	if len(sc.Watch) == 0 {
		return res
	}
	seen := map[string]bool{}
	look := func(where, text string) {
		for _, w := range sc.Watch {
			if strings.Contains(text, w) && !seen[where] {
				seen[where] = true
				res = append(res, where)
			}
		}
	}
	look("standard output", so)
	look("standard error", se)
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			if _, ok := sc.Given[strings.TrimPrefix(p, dir+"/")]; ok {
				return nil
			}
			b, _ := os.ReadFile(p)
			look("file", string(b))
			look("file name", strings.TrimPrefix(p, dir))
		}
		return nil
	})
	rec.mu.Lock()
	defer rec.mu.Unlock()
	for _, e := range rec.events {
		look("request", e.Text)
		look("request", strings.Join(e.Args, "\x00"))
		look("request", string(e.Body))
		look("request", e.RawPath)
		for k, v := range e.Params {
			look("request", k+"="+v)
		}
		if e.Kind == "elsewhere" {
			look("other server", e.Header)
		}
	}
	return res
}

func clip(s string) string {
	if len(s) > 4000 {
		return s[:2000] + "…" + s[len(s)-1900:]
	}
	return s
}

var clientJS, clientCSS = map[string]string{}, map[string]string{} // content -> name

func main() {
	gr := flag.String("gr", "", "gr binary")
	in := flag.String("in", "", "scenarios (ndjson)")
	out := flag.String("out", "", "observations (ndjson)")
	scratch := flag.String("scratch", "", "scratch directory")
	par := flag.Int("par", 16, "parallel runs")
	assets := flag.String("assets", "", "directory of the stand-in client assets")
	flag.Parse()
	if *assets != "" {
		for _, n := range []string{"main", "mermaid"} {
			b, err := os.ReadFile(filepath.Join(*assets, n+".js"))
			if err == nil {
				clientJS[string(b)] = n
			}
			b, err = os.ReadFile(filepath.Join(*assets, n+".css"))
			if err == nil {
				clientCSS[string(b)] = n
			}
		}
	}
	f, err := os.Open(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	rd := bufio.NewReaderSize(f, 1<<20)
	dec := json.NewDecoder(rd)
	type job struct {
		i   int
		sc  *Scenario
		run int
	}
	var jobs []job
	aws := false
	for dec.More() {
		sc := &Scenario{}
		if err := dec.Decode(sc); err != nil {
			fmt.Fprintln(os.Stderr, "bad scenario:", err)
			os.Exit(2)
		}
		n := sc.Repeat
		if n == 0 {
			n = 1
		}
		if sc.Server.Type == "aws" || sc.Server.Type == "awswatched" {
			aws = true
		}
		for k := 0; k < n; k++ {
			jobs = append(jobs, job{len(jobs), sc, k})
		}
	}
	if aws {
		if err := openAwsPort(); err != nil {
			fmt.Fprintln(os.Stderr, "cannot listen on localhost:8080:", err)
			os.Exit(2)
		}
	}
	res := make([]Obs, len(jobs))
	ch := make(chan job)
	var wg sync.WaitGroup
	for w := 0; w < *par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				o := runOne(*gr, *scratch, j.sc, j.run)
				if o.DriveErr != "" || o.TimedOut { // one retry on trouble of the driver itself
					o = runOne(*gr, *scratch, j.sc, j.run)
				}
				res[j.i] = o
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	of, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	bw := bufio.NewWriterSize(of, 1<<20)
	enc := json.NewEncoder(bw)
	enc.SetEscapeHTML(false)
	for i := range res {
		if err := enc.Encode(&res[i]); err != nil {
			fmt.Fprintln(os.Stderr, "encode:", res[i].ID, err)
			os.Exit(2)
		}
	}
	bw.Flush()
	of.Close()
}
