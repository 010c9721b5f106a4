EX = "database/dservice"
EXDEMO_HEAD = '''package dservice

import (
	"fmt"
	"testing"
	"time"

	"github.com/mrasu/GravityR/database/dmodel"
)

type demoEx struct {
	log    []string
	live   map[string]bool
	max    int
	execs  int
	failAt int
	delays []time.Duration
}

func (d *demoEx) Execute() (int64, error) {
	d.execs++
	d.log = append(d.log, "exec")
	if d.execs == d.failAt {
		return 0, fmt.Errorf("failed")
	}
	if d.execs <= len(d.delays) {
		return d.delays[d.execs-1].Milliseconds(), nil
	}
	return 1, nil
}
func (d *demoEx) CreateIndex(n string, it *dmodel.IndexTarget) error {
	d.live[it.TableName+"."+n] = true
	if len(d.live) > d.max {
		d.max = len(d.live)
	}
	return nil
}
func (d *demoEx) DropIndex(n string, it *dmodel.IndexTarget) error {
	delete(d.live, it.TableName+"."+n)
	return nil
}
'''
SEEDS = [
 dict(id="c01-defer-after-run", property="C01", pkg=EX, needs="the measured query fails while a temporary index exists",
      breaks="the temporary index is not dropped when the measured run fails",
      edits=[("database/dservice/examiner.go", '''	defer func() {
		log.Info().Msg(fmt.Sprintf("Dropping index(%s)...", idxName))
''', '''	millis, err := iee.execute()
	if err != nil {
		return nil, err
	}

	defer func() {
		log.Info().Msg(fmt.Sprintf("Dropping index(%s)...", idxName))
'''), ("database/dservice/examiner.go", '''	}()

	millis, err := iee.execute()
	if err != nil {
		return nil, err
	}

	return dmodel''', '''	}()

	return dmodel''')],
      demo=EXDEMO_HEAD + '''
func TestSeedDemo(t *testing.T) {
	d := &demoEx{live: map[string]bool{}, failAt: 2}
	_, err := NewIndexEfficiencyExaminer(d).Run([]*dmodel.IndexTarget{dmodel.NewIndexTarget("t", []string{"a"})})
	if err == nil || len(d.live) != 0 {
		t.Fatal("index left behind", err, d.live)
	}
}
'''),
 dict(id="c01-long-name-drop", property="C01", pkg=EX, needs="an index whose generated name is longer than 30 characters",
      breaks="the drop names the untruncated index, so a long-named index stays",
      edits=[("database/dservice/examiner.go", '''	idxName := fmt.Sprintf("%s_%s",
		id,
		lib.Join(it.Columns, "_", func(i *dmodel.IndexColumn) string { return i.SafeName() }),
	)
	if len(idxName) > maxIdxNameLen {
		idxName = fmt.Sprintf("%s_%d", idxName[:maxIdxNameLen], rand.Intn(999999999))
	}
''', '''	idxName := iee.indexName(id, it)
'''), ("database/dservice/examiner.go", '''		err2 := iee.ie.DropIndex(idxName, it)''', '''		err2 := iee.ie.DropIndex(iee.indexName(id, it), it)'''),
      ("database/dservice/examiner.go", '''func (iee *IndexEfficiencyExaminer) execute()''', '''func (iee *IndexEfficiencyExaminer) indexName(id string, it *dmodel.IndexTarget) string {
	idxName := fmt.Sprintf("%s_%s",
		id,
		lib.Join(it.Columns, "_", func(i *dmodel.IndexColumn) string { return i.SafeName() }),
	)
	if len(idxName) > maxIdxNameLen {
		idxName = fmt.Sprintf("%s_%d", idxName[:maxIdxNameLen], rand.Intn(999999999))
	}
	return idxName
}

func (iee *IndexEfficiencyExaminer) execute()''')],
      demo=EXDEMO_HEAD + '''
func TestSeedDemo(t *testing.T) {
	d := &demoEx{live: map[string]bool{}}
	NewIndexEfficiencyExaminer(d).Run([]*dmodel.IndexTarget{dmodel.NewIndexTarget("t", []string{"a_long_column_name", "another_long_column_name"})})
	if len(d.live) != 0 {
		t.Fatal("index left behind", d.live)
	}
}
'''),
 dict(id="c02-drop-at-end-per-table", property="C02", pkg=EX, needs="two indexes examined on different tables",
      breaks="the drop of an index is put off until the next table's first index exists, so two temporary indexes coexist",
      edits=[("database/dservice/examiner.go", '''	for _, it := range its {
		res, err := iee.examine(id, it)
		if err != nil {''', '''	var pending []func()
	defer func() {
		for _, f := range pending {
			f()
		}
	}()
	for i, it := range its {
		res, drop, err := iee.examine(id, it)
		if drop != nil {
			if i+1 < len(its) && its[i+1].TableName != it.TableName && err == nil {
				pending = append(pending, func() { _ = drop() })
			} else if err2 := drop(); err == nil && err2 != nil {
				err = errors.Wrap(err2, "failed to drop index")
			}
		}
		if err != nil {'''),
      ("database/dservice/examiner.go", '''it *dmodel.IndexTarget) (res *dmodel.ExaminationIndexResult, err error) {''', '''it *dmodel.IndexTarget) (res *dmodel.ExaminationIndexResult, drop func() error, err error) {'''),
      ("database/dservice/examiner.go", '''	err = iee.ie.CreateIndex(idxName, it)
	if err != nil {
		return nil, err
	}

	defer func() {
		log.Info().Msg(fmt.Sprintf("Dropping index(%s)...", idxName))
		err2 := iee.ie.DropIndex(idxName, it)
		if err == nil {
			err = errors.Wrap(err2, "failed to drop index")
		}
	}()

	millis, err := iee.execute()
	if err != nil {
		return nil, err
	}

	return dmodel.NewExaminationIndexResult(it, millis), nil''', '''	err = iee.ie.CreateIndex(idxName, it)
	if err != nil {
		return nil, nil, err
	}

	drop = func() error {
		log.Info().Msg(fmt.Sprintf("Dropping index(%s)...", idxName))
		return iee.ie.DropIndex(idxName, it)
	}

	millis, err := iee.execute()
	if err != nil {
		return nil, drop, err
	}

	return dmodel.NewExaminationIndexResult(it, millis), drop, nil''')],
      demo=EXDEMO_HEAD + '''
func TestSeedDemo(t *testing.T) {
	d := &demoEx{live: map[string]bool{}}
	NewIndexEfficiencyExaminer(d).Run([]*dmodel.IndexTarget{dmodel.NewIndexTarget("t", []string{"a"}), dmodel.NewIndexTarget("u", []string{"a"})})
	if d.max != 1 || len(d.live) != 0 {
		t.Fatal("indexes coexist", d.max, d.live)
	}
}
'''),
 dict(id="c03-log-sort-in-place", property="C03", pkg=EX, needs="several indexes on one table whose measured times are not ascending",
      breaks="the results of a table are sorted in place by time, so times are reported for other indexes than measured",
      edits=[("database/dservice/examiner.go", '''		if rs, ok := results[it.TableName]; ok {
			results[it.TableName] = append(rs, res)
		} else {
			results[it.TableName] = []*dmodel.ExaminationIndexResult{res}
		}
	}
	er := dmodel.NewExaminationResult(irs, origExecTimeMillis)
''', '''		if len(irs) > 1 && irs[len(irs)-2].IndexTarget.TableName == it.TableName {
			rs := results[it.TableName]
			results[it.TableName] = irs[len(irs)-1-len(rs):]
		} else {
			results[it.TableName] = irs[len(irs)-1:]
		}
	}
	er := dmodel.NewExaminationResult(irs, origExecTimeMillis)
''')],
      demo=EXDEMO_HEAD + '''
func TestSeedDemo(t *testing.T) {
	d := &demoEx{live: map[string]bool{}, delays: []time.Duration{5e6, 40e6, 10e6, 20e6}}
	r, err := NewIndexEfficiencyExaminer(d).Run([]*dmodel.IndexTarget{dmodel.NewIndexTarget("t", []string{"a"}), dmodel.NewIndexTarget("t", []string{"b"}), dmodel.NewIndexTarget("t", []string{"c"})})
	if err != nil {
		t.Fatal(err)
	}
	vm := r.ToViewModel()
	for i, w := range []int64{40, 10, 20} {
		if vm.IndexResults[i].ExecutionTimeMillis != w || vm.IndexResults[i].IndexTarget.Columns[0].Name != string(rune('a'+i)) {
			t.Fatal("wrong order", i, vm.IndexResults[i].ExecutionTimeMillis)
		}
	}
}
'''),
 dict(id="c03-drop-error-swallowed", property="C03", pkg=EX, needs="dropping a temporary index fails after a successful run",
      breaks="the examination is reported as successful although an index could not be dropped",
      edits=[("database/dservice/examiner.go", '''		if err == nil {
			err = errors.Wrap(err2, "failed to drop index")
		}''', '''		if err != nil {
			err = errors.Wrap(err, "failed to examine")
		} else if err2 != nil {
			log.Warn().Err(errors.Wrap(err2, "failed to drop index")).Msg(idxName)
		}''')],
      demo=EXDEMO_HEAD + '''
type demoNoDrop struct{ *demoEx }

func (d demoNoDrop) DropIndex(n string, it *dmodel.IndexTarget) error { return fmt.Errorf("no") }

func TestSeedDemo(t *testing.T) {
	d := &demoEx{live: map[string]bool{}}
	_, err := NewIndexEfficiencyExaminer(demoNoDrop{d}).Run([]*dmodel.IndexTarget{dmodel.NewIndexTarget("t", []string{"a"})})
	if err == nil {
		t.Fatal("failure of drop not reported")
	}
}
'''),
 dict(id="c05-trim-names", property="C05", pkg="database/dmodel", needs="an -i value with spaces around a name",
      breaks="a malformed -i value is examined instead of refused",
      edits=[("database/dmodel/index_target.go", '''	tName := m[1]
''', '''	tName := strings.TrimSpace(m[1])
'''), ("database/dmodel/index_target.go", '''		ic, err := NewIndexColumn(c)''', '''		ic, err := NewIndexColumn(strings.TrimSpace(c))''')],
      demo='''package dmodel

import "testing"

func TestSeedDemo(t *testing.T) {
	for _, s := range []string{"users:name ", " users:name", "users:a + b"} {
		if _, err := NewIndexTargetFromText(s); err == nil {
			t.Fatal("accepted", s)
		}
	}
}
'''),
]
