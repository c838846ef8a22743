package main

import (
	"github.com/dgraph-io/badger/v4"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	tdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/request"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
)

// A target as the specification sees it: which runs it has, which of them
// (if any) is the one in progress and what each has recorded.
type run struct {
	id    string
	tests map[testcom.FDOTestID]testcom.FDOTestState
}

type target struct {
	id     []byte
	url    string
	proto  fs.FdoToProtocol
	runs   []run // latest first
	active string
}

func text(name string) string {
	b := vx.Bytes(name, 1)
	vx.Assume(b[0] < 0x80)
	return string(b)
}

func state(name string, id testcom.FDOTestID) testcom.FDOTestState {
	if vx.Bool(name + " passed") {
		return testcom.NewSuccessTestState(id)
	}
	return testcom.NewFailTestState(id, text(name+" error"))
}

func sameState(a, b testcom.FDOTestState) bool {
	return vx.And(a.Passed == b.Passed, vx.And(vx.EqStr(a.Error, b.Error), vx.EqStr(string(a.TestID), string(b.TestID))))
}

// holds checks that the stored target is exactly t.
func holds(s *tdbs.RequestTestDB, t *target, who string) {
	got, err := s.Get(t.id)
	vx.Assert(err == nil, who+" is still there")
	if err != nil {
		return
	}
	vx.Assert(vx.And(vx.EqBytes(got.Uuid, t.id), vx.And(vx.EqStr(got.URL, t.url), got.Protocol == t.proto)), who+" keeps its identity")
	vx.Assert(len(got.TestsHistory) == len(t.runs), who+" has exactly its runs")
	vx.Assert(got.InProgress == (t.active != ""), who+" is in progress exactly while a run is")
	if len(got.TestsHistory) != len(t.runs) {
		return
	}
	for i, r := range t.runs {
		g := got.TestsHistory[i]
		vx.Assert(vx.EqStr(g.Uuid, r.id), who+": each run keeps its id and place")
		vx.Assert(g.Protocol == t.proto, who+": each run keeps its protocol")
		vx.Assert(len(g.Tests) == len(r.tests), who+": each run holds exactly its results")
		for id, st := range r.tests {
			x, ok := g.Tests[id]
			vx.Assert(ok, who+": a result is stored under its test")
			vx.Assert(sameState(x, st), who+": a result is stored as reported")
		}
	}
}

var ids = []testcom.FDOTestID{testcom.FIDO_TEST_LIST_RVT_20[0], testcom.FIDO_TEST_LIST_RVT_20[1], testcom.NULL_TEST}

// one operation on the store; u is nil for a target that is not there.
func step(s *tdbs.RequestTestDB, n string, t *target, id []byte) {
	switch vx.Choose(n+" operation", 4) {
	case 0:
		s.StartNewRun(id)
		if t == nil {
			return
		}
		got, err := s.Get(id)
		vx.Assert(err == nil, "a target is readable after a start")
		if err != nil {
			return
		}
		vx.Assert(len(got.TestsHistory) == len(t.runs)+1, "starting a run makes exactly one run")
		if len(got.TestsHistory) != len(t.runs)+1 {
			return
		}
		nid := got.TestsHistory[0].Uuid
		for _, r := range t.runs {
			vx.Assert(vx.Not(vx.EqStr(nid, r.id)), "a new run has an id of its own")
		}
		t.runs = append([]run{{id: nid, tests: map[testcom.FDOTestID]testcom.FDOTestState{}}}, t.runs...)
		t.active = nid
	case 1:
		s.FinishRun(id)
		if t != nil {
			t.active = ""
		}
	case 2:
		k := ids[vx.Choose(n+" test", vx.Bound("tests", 2, 3))]
		st := state(n, k)
		if t != nil {
			// outside a run nothing is reported
			vx.Assume(t.active != "" || len(t.runs) == 0)
		}
		s.ReportTest(id, k, st)
		if t == nil {
			return
		}
		for i := range t.runs {
			if t.runs[i].id == t.active {
				t.runs[i].tests[k] = st
			}
		}
	case 3:
		rid := "no such run"
		if t != nil {
			if i := vx.Choose(n+" run", len(t.runs)+1); i < len(t.runs) {
				rid = t.runs[i].id
			}
		}
		s.RemoveTestRun(id, rid)
		if t == nil {
			return
		}
		var left []run
		for _, r := range t.runs {
			if r.id != rid {
				left = append(left, r)
			}
		}
		t.runs = left
	}
}

func setup(db *badger.DB) (*tdbs.RequestTestDB, []*target) {
	s := tdbs.NewRequestTestDB(db)
	var ts []*target
	for i, p := range []fs.FdoToProtocol{fs.To0, fs.To2} {
		e := request.NewRequestTestInst("http://"+string(rune('a'+i)), p)
		vx.Assert(s.Save(e) == nil, "a target is saved")
		ts = append(ts, &target{id: e.Uuid, url: e.URL, proto: p})
	}
	return s, ts
}

// H_history: every history of a few operations on two targets and an unknown
// one keeps each target exactly as the specification says.
func H_history() {
	vx.Option("concrete-rand", 1)
	vx.Assumption("results are reported only while a run of the target is in progress, or for a target without runs")
	db := vxm.OpenDB()
	s, ts := setup(db)
	n := vx.Bound("operations", 3, 4)
	for i := 0; i < n; i++ {
		name := "step " + string(rune('0'+i))
		w := vx.Choose(name+" target", 3)
		var t *target
		id := []byte("0123456789abcdef")
		if w < 2 {
			t, id = ts[w], ts[w].id
		}
		p, msg := vx.Try(func() { step(s, name, t, id) })
		if p {
			vx.Observe("operation panic", msg)
		}
		vx.Assert(!p, "no operation crashes")
	}
	holds(s, ts[0], "the first target")
	holds(s, ts[1], "the second target")
	_, err := s.Get([]byte("0123456789abcdef"))
	vx.Assert(err != nil, "no operation creates a target")
	vx.Assert(len(vxm.Keys(db)) == 2, "no operation creates a record")
}

// H_one: a long run history of one target, built by real operations, and one
// more operation on it.
func H_one() {
	vx.Option("concrete-rand", 1)
	db := vxm.OpenDB()
	s, ts := setup(db)
	t := ts[vx.Choose("target", 2)]
	n := vx.Choose("runs", vx.Bound("runs", 3, 4))
	for i := 0; i < n; i++ {
		name := "run " + string(rune('0'+i))
		s.StartNewRun(t.id)
		got, err := s.Get(t.id)
		vx.Assert(err == nil && len(got.TestsHistory) == i+1, "starting a run makes exactly one run")
		if err != nil || len(got.TestsHistory) != i+1 {
			return
		}
		r := run{id: got.TestsHistory[0].Uuid, tests: map[testcom.FDOTestID]testcom.FDOTestState{}}
		t.active = r.id
		k := vx.Choose(name+" results", 3)
		for j := 0; j < k; j++ {
			st := state(name+" result "+string(rune('0'+j)), ids[j])
			s.ReportTest(t.id, ids[j], st)
			r.tests[ids[j]] = st
		}
		t.runs = append([]run{r}, t.runs...)
		if i < n-1 || vx.Bool("finished") {
			s.FinishRun(t.id)
			t.active = ""
		}
	}
	p, _ := vx.Try(func() { step(s, "last", t, t.id) })
	vx.Assert(!p, "no operation crashes")
	holds(s, ts[0], "the first target")
	holds(s, ts[1], "the second target")
}

// H_many: a target that has been tested often keeps every run; any of them can be removed, and only that one.
func H_many() {
	vx.Option("concrete-rand", 1)
	db := vxm.OpenDB()
	s, ts := setup(db)
	t := ts[vx.Choose("target", 2)]
	n := vx.Bound("many runs", 12, 60)
	for i := 0; i < n; i++ {
		s.StartNewRun(t.id)
		got, err := s.Get(t.id)
		vx.Assert(err == nil && len(got.TestsHistory) == i+1, "starting a run makes exactly one run")
		if err != nil || len(got.TestsHistory) != i+1 {
			return
		}
		r := run{id: got.TestsHistory[0].Uuid, tests: map[testcom.FDOTestID]testcom.FDOTestState{}}
		t.active = r.id
		id := testcom.FIDO_TEST_LIST_RVT_22[i%len(testcom.FIDO_TEST_LIST_RVT_22)]
		st := testcom.NewFailTestState(id, "no")
		s.ReportTest(t.id, id, st)
		r.tests[id] = st
		t.runs = append([]run{r}, t.runs...)
		if i < n-1 || vx.Bool("finished") {
			s.FinishRun(t.id)
			t.active = ""
		}
	}
	holds(s, t, "the target")
	i := vx.Choose("run", n)
	s.RemoveTestRun(t.id, t.runs[i].id)
	t.runs = append(t.runs[:i:i], t.runs[i+1:]...)
	holds(s, ts[0], "the first target")
	holds(s, ts[1], "the second target")
}

// H_all_tests: a run keeps the results of all its tests.
func H_all_tests() {
	vx.Option("concrete-rand", 1)
	db := vxm.OpenDB()
	s, ts := setup(db)
	t := ts[0]
	s.StartNewRun(t.id)
	got, err := s.Get(t.id)
	if err != nil || len(got.TestsHistory) != 1 {
		vx.Assert(false, "starting a run makes exactly one run")
		return
	}
	r := run{id: got.TestsHistory[0].Uuid, tests: map[testcom.FDOTestID]testcom.FDOTestState{}}
	t.runs, t.active = []run{r}, r.id
	var all []testcom.FDOTestID
	for _, l := range [][]testcom.FDOTestID{testcom.FIDO_TEST_LIST_RVT_20, testcom.FIDO_TEST_LIST_RVT_22, testcom.FIDO_TEST_LIST_VOUCHER} {
		all = append(all, l...)
	}
	k := vx.Choose("passed", len(all))
	for i, id := range all {
		st := testcom.NewFailTestState(id, "no")
		if i == k {
			st = testcom.NewSuccessTestState(id)
		}
		s.ReportTest(t.id, id, st)
		r.tests[id] = st
	}
	holds(s, ts[0], "the first target")
	holds(s, ts[1], "the second target")
}
