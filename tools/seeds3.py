"""Planted bugs for C34 and C35."""
LOGDEMO = '''package %s

import (
	"bytes"
	"strings"
	"testing"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

func demoLog() (*bytes.Buffer, func()) {
	var b bytes.Buffer
	old := log.Logger
	log.Logger = zerolog.New(&b)
	return &b, func() { log.Logger = old }
}

var _ = strings.Contains
'''
SEEDS = [
 dict(id="c34-no-loss-told", property="C34", pkg="database/dservice", needs="-v and an index which makes the query slower",
      breaks="an index which makes the query slower is told to reduce by 0.0%",
      edits=[("database/dservice/examiner.go", "				(1-float64(r.ExecutionTimeMillis)/float64(origExecTimeMillis))*100,\n",
              "				(1-float64(lo.Min([]int64{r.ExecutionTimeMillis, origExecTimeMillis}))/float64(origExecTimeMillis))*100,\n"),
             ("database/dservice/examiner.go", '	"github.com/rs/zerolog/log"\n', '	"github.com/rs/zerolog/log"\n	"github.com/samber/lo"\n')],
      demo=LOGDEMO.replace('	"testing"\n', '	"testing"\n\n	"github.com/mrasu/GravityR/database/dmodel"\n') % "dservice" + '''
type demoExaminer struct{ times []int64 }

func (d *demoExaminer) Execute() (int64, error) {
	t := d.times[0]
	d.times = d.times[1:]
	return t, nil
}
func (d *demoExaminer) CreateIndex(string, *dmodel.IndexTarget) error { return nil }
func (d *demoExaminer) DropIndex(string, *dmodel.IndexTarget) error   { return nil }

func TestSeedDemo(t *testing.T) {
	b, back := demoLog()
	defer back()
	its := []*dmodel.IndexTarget{{TableName: "t", Columns: []*dmodel.IndexColumn{}}}
	if _, err := NewIndexEfficiencyExaminer(&demoExaminer{[]int64{100, 150}}).Run(its); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), "150ms (-50.0% reduced)") {
		t.Fatal(b.String())
	}
}
'''),
 dict(id="c34-long-name-told", property="C34", pkg="database/dservice", needs="an index over columns with long names",
      breaks="the name told at the creation of an index is not the name it gets if that is shortened",
      edits=[("database/dservice/examiner.go", '	if len(idxName) > maxIdxNameLen {\n', '	log.Info().Msg(fmt.Sprintf("Creating index(%s)...", idxName))\n	if len(idxName) > maxIdxNameLen {\n'),
             ("database/dservice/examiner.go", '	log.Info().Msg(fmt.Sprintf("Creating index(%s)...", idxName))\n	err = iee', '	err = iee')],
      demo=LOGDEMO.replace('	"testing"\n', '	"testing"\n\n	"github.com/mrasu/GravityR/database/dmodel"\n') % "dservice" + '''
type demoExaminer struct{ name string }

func (d *demoExaminer) Execute() (int64, error) { return 1, nil }
func (d *demoExaminer) CreateIndex(n string, _ *dmodel.IndexTarget) error {
	d.name = n
	return nil
}
func (d *demoExaminer) DropIndex(string, *dmodel.IndexTarget) error { return nil }

func TestSeedDemo(t *testing.T) {
	b, back := demoLog()
	defer back()
	it, err := dmodel.NewIndexTargetFromText("t:" + strings.Repeat("abcdefghij", 5))
	if err != nil {
		t.Fatal(err)
	}
	d := &demoExaminer{}
	if _, err := NewIndexEfficiencyExaminer(d).Run([]*dmodel.IndexTarget{it}); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), "Creating index("+d.name+")") {
		t.Fatal(b.String())
	}
}
'''),
 dict(id="c34-told-unwritten", property="C34", pkg="cmd/app/dig", needs="a report of Jaeger which cannot be written",
      breaks="the place of the report of Jaeger is told though it could not be written",
      edits=[("cmd/app/dig/jaeger.go", '''	if outputPath != "" {
		err = jr.createHTML(outputPath, slowTraces, sameServiceTraces)
''', '''	if outputPath != "" {
		defer util.LogResultOutputPath(outputPath)
		err = jr.createHTML(outputPath, slowTraces, sameServiceTraces)
'''), ("cmd/app/dig/jaeger.go", '''			return err
		}

		util.LogResultOutputPath(outputPath)
''', '''			return err
		}
''')],
      demo=LOGDEMO.replace('	"testing"\n', '	"testing"\n	"net"\n\n	iJaeger "github.com/mrasu/GravityR/infra/jaeger"\n	"github.com/mrasu/GravityR/thelper"\n') % "dig" + '''
func TestSeedDemo(t *testing.T) {
	b, back := demoLog()
	defer back()
	thelper.UseGRPCServer(t, nil, func(a net.Addr) {
		cli, err := iJaeger.Open(a.String(), false)
		if err != nil {
			t.Fatal(err)
		}
		defer cli.Close()
		thelper.InjectClientDist()
		jr := jaegerRunner{}
		if err := jr.dig(t.TempDir()+"/none/a.html", cli); err == nil {
			t.Fatal("no error")
		}
	})
	if strings.Contains(b.String(), "Result html") {
		t.Fatal(b.String())
	}
}
'''),
 dict(id="c35-headers-in-log", property="C35", pkg="lib", needs="-v with Hasura and a connection which fails",
      breaks="the debug lines of failed requests tell their headers, the admin secret of Hasura among them",
      edits=[("lib/http_transport.go", 'path=%s status=error durationMs=%d error=%q", req.Method, req.Host, req.URL.Path, duration, err.Error())\n', 'path=%s status=error durationMs=%d header=%v error=%q", req.Method, req.Host, req.URL.Path, duration, req.Header, err.Error())\n')],
      demo=LOGDEMO.replace('	"testing"\n', '	"testing"\n	"net/http"\n	"github.com/mrasu/GravityR/lib"\n') % "lib_test" + '''
func TestSeedDemo(t *testing.T) {
	b, back := demoLog()
	defer back()
	req, _ := http.NewRequest("POST", "http://127.0.0.1:1/", nil)
	req.Header.Set("x-hasura-admin-secret", "topsecretword")
	lib.NewHttpTransport().RoundTrip(req)
	if strings.Contains(b.String(), "topsecretword") {
		t.Fatal(b.String())
	}
}
'''),
 dict(id="c35-headers-in-error", property="C35", pkg="infra/hasura", needs="a connection to Hasura which fails",
      breaks="the error of a failed request to Hasura tells its headers, the admin secret among them",
      edits=[("infra/hasura/client.go", '		return nil, errors.Wrap(err, "failed to execute http request to hasura")\n', '		return nil, errors.Wrapf(err, "failed to execute http request to hasura. %s %s %v", req.Method, req.URL, req.Header)\n')],
      demo='''package hasura

import (
	"net/url"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	u, _ := url.Parse("http://127.0.0.1:1")
	err := NewClient(&Config{Url: u, AdminSecret: "topsecretword"}).QueryWithoutResult("query { a }", nil)
	if err == nil || strings.Contains(err.Error(), "topsecretword") {
		t.Fatal(err)
	}
}
'''),
 dict(id="c35-settings-in-error", property="C35", pkg="infra/mysql", needs="a DB_PARAM_TEXT the driver refuses",
      breaks="the error of refused settings of MySQL tells them all, the password among them",
      edits=[("infra/mysql/db.go", '		return nil, errors.Wrap(err, "failed to connect")\n', '		return nil, errors.Wrapf(err, "failed to connect with %+v", *cfg.config)\n')],
      demo='''package mysql

import (
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	t.Setenv("DB_USERNAME", "u")
	t.Setenv("DB_PASSWORD", "topsecretword")
	t.Setenv("DB_DATABASE", "d")
	t.Setenv("DB_PARAM_TEXT", "timeout=soon")
	cfg, err := NewConfigFromEnv()
	if err != nil {
		t.Fatal(err)
	}
	_, err = OpenMySQLDB(cfg)
	if err == nil || strings.Contains(err.Error(), "topsecretword") {
		t.Fatal(err)
	}
}
'''),
 dict(id="c36-default-profile", property="C36", pkg="infra/aws", needs="AWS_PROFILE naming another profile than default",
      breaks="the profile chosen by AWS_PROFILE is ignored: the account and region of the default one are used",
      edits=[("infra/aws/aws.go", "	var optFns []func(*config.LoadOptions) error\n", '	optFns := []func(*config.LoadOptions) error{config.WithSharedConfigProfile("default")}\n')],
      demo='''package aws

import (
	"os"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	d := t.TempDir()
	os.WriteFile(d+"/config", []byte("[default]\\nregion = us-east-1\\n[profile work]\\nregion = eu-west-1\\n"), 0600)
	t.Setenv("AWS_CONFIG_FILE", d+"/config")
	t.Setenv("AWS_SHARED_CREDENTIALS_FILE", d+"/none")
	t.Setenv("AWS_PROFILE", "work")
	t.Setenv("AWS_REGION", "")
	t.Setenv("AWS_DEFAULT_REGION", "")
	cfg, err := NewAwsConfig(false, false)
	if err != nil || cfg.Region != "eu-west-1" {
		t.Fatal(cfg.Region, err)
	}
}
'''),
 dict(id="c36-region-invented", property="C36", pkg="infra/aws", needs="no region configured anywhere",
      breaks="without a region that of Virginia is read instead of failing",
      edits=[("infra/aws/aws.go", "	var optFns []func(*config.LoadOptions) error\n", '	optFns := []func(*config.LoadOptions) error{config.WithDefaultRegion("us-east-1")}\n')],
      demo='''package aws

import "testing"

func TestSeedDemo(t *testing.T) {
	d := t.TempDir()
	t.Setenv("AWS_CONFIG_FILE", d+"/none")
	t.Setenv("AWS_SHARED_CREDENTIALS_FILE", d+"/none")
	t.Setenv("AWS_PROFILE", "")
	t.Setenv("AWS_REGION", "")
	t.Setenv("AWS_DEFAULT_REGION", "")
	cfg, err := NewAwsConfig(false, true)
	if err == nil && cfg.Region != "" {
		t.Fatal(cfg.Region)
	}
}
'''),
]
