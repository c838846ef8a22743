package main

import (
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	tdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/listener"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

// A result as the specification sees it.
type result struct {
	id     testcom.FDOTestID
	passed bool
}

type run struct {
	id      string
	results []result
}

// shown is what the tool shows of a runner: the run in progress and those in the history.
func shown(r *listener.RequestListenerRunnerInst) []listener.ListenerTestRun {
	var l []listener.ListenerTestRun
	if r.Running {
		l = append(l, r.CurrentTestRun)
	}
	return append(l, r.TestRunHistory...)
}

// holds checks that the runs shown are exactly want.
func holds(r *listener.RequestListenerRunnerInst, want []run, who string) {
	l := shown(r)
	for _, x := range want {
		n := 0
		for _, g := range l {
			if g.Uuid != x.id {
				continue
			}
			n++
			ok := len(g.TestRuns) == len(x.results)
			vx.Assert(g.Protocol == r.Protocol, who+": a run keeps its protocol")
			vx.Assert(ok, who+": a run has exactly its results")
			if !ok {
				continue
			}
			for i, y := range x.results {
				vx.Assert(g.TestRuns[i].TestID == y.id, who+": a result is stored under its test")
				vx.Assert(g.TestRuns[i].Passed == y.passed, who+": a result is stored as it was obtained")
			}
		}
		vx.Assert(n != 0, who+": no run is lost")
		vx.Assert(n < 2, who+": no run is shown twice")
	}
	vx.Assert(len(l) <= len(want), who+": no run appears that was not started or was removed")
}

// H_runner: every history of operations on one runner, with test lists of any
// sizes within the bound, keeps the runs exactly and goes through the tests in
// order.
func H_runner() {
	vx.Option("concrete-rand", 1)
	vx.Assumption("the runner is used as the servers use it: a command is completed after the result of its last test, a run after that of its last command")
	l := listener.NewDevice_RequestListenerInst(fs.VoucherDBEntry{}, fs.FdoGuid{1})
	r := &l.To1
	cmds := []fs.FdoCmd{30, 32}
	var lists [][]testcom.FDOTestID
	for i, c := range cmds {
		n := vx.Choose("tests of command "+string(rune('0'+i)), vx.Bound("tests", 2, 3))
		var t []testcom.FDOTestID
		for j := 0; j < n; j++ {
			t = append(t, testcom.FDOTestID(rune('a'+3*i+j)))
		}
		lists = append(lists, append(t, testcom.FIDO_LISTENER_POSITIVE))
		r.Tests[c] = lists[i]
	}
	var runs []run
	cur := -1 // index in runs of the one in progress
	pos, idx := 0, 0
	drawn := testcom.FDOTestID("")
	steps := vx.Bound("operations", 6, 8)
	for i := 0; i < steps; i++ {
		name := "step " + string(rune('0'+i))
		var p bool
		switch vx.Choose(name, 4) {
		case 0:
			p, _ = vx.Try(r.StartNewTestRun)
			vx.Assert(r.Running && r.ExpectedCmd == 30, "a started run expects the first command")
			for _, x := range runs {
				vx.Assert(x.id != r.CurrentTestRun.Uuid, "a run has an id of its own")
			}
			runs = append(runs, run{id: r.CurrentTestRun.Uuid})
			cur, pos, idx, drawn = len(runs)-1, 0, 0, ""
		case 1: // a message of the expected command: the last test has a result, the next one is sent
			if drawn != "" {
				ok := vx.Bool(name + " passed")
				p, _ = vx.Try(func() {
					if ok {
						r.PushSuccess()
					} else {
						r.PushFail("e")
					}
				})
				if cur >= 0 {
					runs[cur].results = append(runs[cur].results, result{drawn, ok})
				}
				drawn = ""
			}
			var got testcom.FDOTestID
			q, _ := vx.Try(func() { got = r.GetNextTestID() })
			p = p || q
			if cur < 0 {
				vx.Assert(got == testcom.NULL_TEST, "no test is sent without a run")
				break
			}
			vx.Assert(got == lists[pos][idx], "the next test of the command is sent")
			vx.Assert(r.GetLastTestID() == got, "the runner knows the test that was sent")
			drawn = got
			idx++
			if idx < len(lists[pos]) {
				break
			}
			// the last test is the one a device has to pass
			r.PushSuccess()
			runs[cur].results = append(runs[cur].results, result{drawn, true})
			drawn = ""
			if pos == 0 {
				vx.Assert(!r.CheckCmdTestingIsCompleted(30), "a command is complete only after its last test")
				p, _ = vx.Try(func() { r.CompleteCmdAndSetNext(32) })
				vx.Assert(r.CheckCmdTestingIsCompleted(30) && !r.CheckCmdTestingIsCompleted(32), "a command is complete after its last test, the next is not")
				vx.Assert(r.CheckExpectedCmd(32) && !r.CheckExpectedCmd(30), "after a command the next is expected")
				pos, idx = 1, 0
			} else {
				p, _ = vx.Try(r.CompleteTestRun)
				vx.Assert(r.CheckCmdTestingIsCompleted(30) && r.CheckCmdTestingIsCompleted(32), "every command of a completed run is complete")
				vx.Assert(!r.Running && r.Completed, "a completed run is not in progress")
				cur = -1
			}
		case 2:
			k := vx.Choose(name+" run", len(runs)+1)
			if k == len(runs) {
				var err error
				p, _ = vx.Try(func() { err = r.RemoveTestRun("no such run") })
				vx.Assert(err != nil, "removing an unknown run is refused")
				break
			}
			var err error
			p, _ = vx.Try(func() { err = r.RemoveTestRun(runs[k].id) })
			vx.Assert(err == nil, "a run can be removed")
			if k == cur {
				cur, drawn = -1, ""
			} else if k < cur {
				cur--
			}
			runs = append(append([]run{}, runs[:k]...), runs[k+1:]...)
		case 3: // a result that belongs to no test
			if cur >= 0 && drawn == "" && len(runs[cur].results) == 0 {
				p, _ = vx.Try(func() { r.PushFail("e") })
			}
		}
		vx.Assert(!p, "no operation of a runner crashes")
	}
	vx.Assert(r.Running == (cur >= 0), "the runner runs exactly while a run is in progress")
	holds(r, runs, "runner")
}

// H_store: removing a run from the store removes exactly that run.
func H_store() {
	vx.Option("concrete-rand", 1)
	db := vxm.OpenDB()
	s := tdbs.NewListenerTestDB(db)
	var es []listener.RequestListenerInst
	want := map[string][]run{}
	for i := 0; i < 2; i++ {
		e := listener.NewDevice_RequestListenerInst(fs.VoucherDBEntry{Voucher: fs.OwnershipVoucher{OVHeaderTag: []byte{1}}}, fs.FdoGuid{byte(i + 1)})
		for k, r := range []*listener.RequestListenerRunnerInst{&e.To1, &e.To2} {
			p := string(rune('1' + k))
			n := 2
			if i == 0 {
				n = vx.Choose("runs of "+p, 3)
			}
			for j := 0; j < n; j++ {
				r.StartNewTestRun()
				id := r.CurrentTestRun.Uuid
				x := run{id: id, results: []result{{r.GetNextTestID(), true}}}
				r.PushSuccess()
				want[e.Guid.GetFormattedHex()+p] = append(want[e.Guid.GetFormattedHex()+p], x)
				if j < n-1 || i == 0 && vx.Bool("finished "+p) {
					r.CompleteTestRun()
				}
			}
		}
		vx.Assert(s.Save(e) == nil, "a listener is saved")
		es = append(es, e)
	}
	p := vx.Choose("protocol", 4)
	id := es[0].Uuid
	if vx.Bool("unknown listener") {
		id = []byte("0123456789abcdef")
	}
	rid, at := "no such run", -1
	key := es[0].Guid.GetFormattedHex() + string(rune('0'+p))
	from := es[0].Guid.GetFormattedHex() + string(rune('0'+vx.Choose("protocol of the run", 2)+1))
	if k := vx.Choose("run", len(want[from])+1); k < len(want[from]) {
		rid = want[from][k].id
		if from == key && string(id) == string(es[0].Uuid) {
			at = k
		}
	}
	var err error
	crashed, _ := vx.Try(func() { err = s.RemoveTestRun(fs.FdoToProtocol(p), id, rid) })
	vx.Assert(!crashed, "removing a run does not crash")
	vx.Assert((err == nil) == (at >= 0), "exactly a run that is there can be removed")
	if at >= 0 {
		want[key] = append(append([]run{}, want[key][:at]...), want[key][at+1:]...)
	}
	for _, e := range es {
		g, err := s.GetEntryByFdoGuid(e.Guid)
		vx.Assert(err == nil, "a listener stays in the store")
		if err != nil {
			return
		}
		holds(&g.To1, want[e.Guid.GetFormattedHex()+"1"], "TO1")
		holds(&g.To2, want[e.Guid.GetFormattedHex()+"2"], "TO2")
	}
}

var guid = fs.FdoGuid{0xfd, 0x0f, 0x9b, 0x56, 0x0e, 0x5d, 0x1a, 0x3a, 0x1e, 0x9d, 0x54, 0x1a, 0x21, 0x40, 0x01, 0x02}

// device is a device under test and the servers it talks to.
type device struct {
	do  *vxs.DO
	rv  *vxs.RV
	v   *vxf.Voucher
	l   listener.RequestListenerInst
	run *listener.RequestListenerRunnerInst
	seq []fs.FdoCmd
}

func newDevice(cmd fs.FdoCmd) *device {
	d := &device{v: vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 2, Guid: guid})}
	d.l = listener.NewDevice_RequestListenerInst(d.v.DBEntry(), guid)
	if cmd < 40 {
		d.rv = vxs.NewRV()
		tok, n := d.rv.Hello0()
		vx.Assert(vxs.OK(d.rv.Post(22, &tok, vxf.Marshal(vxs.NewReg(d.v, n, 300).Message())), "23"), "a registration is accepted")
		d.run, d.seq = &d.l.To1, []fs.FdoCmd{30, 32}
	} else {
		d.do = vxs.NewDO()
		d.do.Add(d.v)
		d.run, d.seq = &d.l.To2, []fs.FdoCmd{60, 62, 64, 66, 68, 70}
	}
	return d
}

func (d *device) store() *tdbs.ListenerTestDB {
	if d.rv != nil {
		return tdbs.NewListenerTestDB(d.rv.DB)
	}
	return tdbs.NewListenerTestDB(d.do.DB)
}

func (d *device) save() { vx.Assert(d.store().Save(d.l) == nil, "a listener is saved") }

// load reads the test run back.
func (d *device) load() *listener.RequestListenerRunnerInst {
	g, err := d.store().Get(d.l.Uuid)
	vx.Assert(err == nil, "a listener stays in the store")
	if err != nil {
		panic("no listener")
	}
	if d.rv != nil {
		return &g.To1
	}
	return &g.To2
}

// send is the correct message cmd in a session as it is after the message last.
func (d *device) send(cmd, last fs.FdoCmd) *vxm.Rec {
	if cmd == 30 {
		return d.rv.Post(30, nil, vxf.Marshal(fs.HelloRV30{Guid: guid, EASigInfo: fs.SigInfo{SgType: d.v.DevSg}}))
	}
	if cmd == 32 {
		tok, n := d.session1()
		c, err := fs.GenerateCoseSignature(vxf.Marshal(fs.EATPayloadBase{EatNonce: n, EatUEID: fs.GenerateEatGuid(guid)}), fs.ProtectedHeader{}, fs.UnprotectedHeader{}, d.v.DevKey, d.v.DevSg)
		if err != nil {
			panic(err)
		}
		return d.rv.Post(32, &tok, vxf.Marshal(*c))
	}
	if cmd == 60 {
		return d.do.Post(60, nil, vxf.Marshal(fs.HelloDevice60{MaxDeviceMessageSize: 1300, Guid: guid, NonceTO2ProveOV: fs.FdoNonce{3}, KexSuiteName: fs.KEX_ECDH256, CipherSuiteName: fs.CIPHER_A128GCM, EASigInfo: fs.SigInfo{SgType: d.v.DevSg, Info: []byte{}}}))
	}
	x := d.do.At(d.v, last, fs.CIPHER_A128GCM)
	switch cmd {
	case 62:
		n := uint8(0)
		if last == 63 {
			n = 1
		}
		return x.Entry62(n)
	case 64:
		return d.prove(x)
	case 66:
		return d.do.Post(66, &x.Token, x.Enc(vxf.Marshal(fs.DeviceServiceInfoReady66{})))
	case 68:
		return x.Info68(last == 67, nil)
	case 70:
		return x.Done70()
	}
	panic("no such message")
}

func (d *device) prove(x *vxs.Dev) *vxm.Rec {
	kex, err := fs.GenerateXABKeyExchange(fs.KEX_ECDH256, nil)
	if err != nil {
		panic(err)
	}
	s := d.do.Session(x.Token)
	s.XAKex = *kex
	d.do.Put(x.Token, *s)
	x.Hdr.XAKeyExchange = kex.XAKeyExchange
	x.OwnerPub = d.v.OwnerPub[len(d.v.OwnerPub)-1]
	setup := x.Setup
	x.Exchange()
	x.Setup = setup
	return d.do.Post(64, &x.Token, vxf.Marshal(x.Sign(x.EAT(), d.v.DevKey, d.v.DevSg)))
}

// session1 is a TO1 session after a correct hello.
func (d *device) session1() (string, fs.FdoNonce) {
	n := fs.FdoNonce{9}
	return d.rv.Session1(guid, d.v.DevSg, n), n
}

var before = map[fs.FdoCmd]fs.FdoCmd{62: 61, 64: 63, 66: 65, 68: 67, 70: 69}

// stand brings the run to where the first i tests of cmd were sent and all but
// the last of them have a result.
func (d *device) stand(cmd fs.FdoCmd, i int) *run {
	d.run.StartNewTestRun()
	r := &run{id: d.run.CurrentTestRun.Uuid}
	push := func(t testcom.FDOTestID) {
		d.run.PushSuccess()
		r.results = append(r.results, result{t, true})
	}
	for k, c := range d.seq {
		for j, t := range d.run.Tests[c] {
			if c == cmd && j == i {
				return r
			}
			d.run.GetNextTestID()
			if c != cmd || j < i-1 {
				push(t)
			}
		}
		d.run.CompleteCmdAndSetNext(d.seq[k+1])
	}
	return r
}

// answered checks what is recorded after the device was sent test i of cmd.
func (d *device) answered(r *run, cmd fs.FdoCmd, i int) {
	g := d.load()
	tests := d.run.Tests[cmd]
	vx.Assert(g.GetLastTestID() == tests[i], "the device is sent the next test of the command")
	if i < len(tests)-1 {
		vx.Assert(g.Running && g.CheckExpectedCmd(cmd) && !g.CheckCmdTestingIsCompleted(cmd), "a command is expected until its last test has a result")
		holds(g, []run{*r}, "run")
		return
	}
	r.results = append(r.results, result{tests[i], true})
	vx.Assert(g.CheckCmdTestingIsCompleted(cmd), "a command is complete when its last test has a result")
	if cmd == d.seq[len(d.seq)-1] {
		vx.Assert(!g.Running && g.Completed, "a run is complete when its last command is")
		vx.Assert(len(g.TestRunHistory) == 1 && g.TestRunHistory[0].Completed, "a complete run is in the history")
	} else {
		vx.Assert(g.Running, "a run is in progress until its last command is complete")
		for k, c := range d.seq {
			if c == cmd {
				vx.Assert(g.CheckExpectedCmd(d.seq[k+1]), "after a command the next is expected")
			}
		}
	}
	holds(g, []run{*r}, "run")
}

func pick(cmds []fs.FdoCmd) fs.FdoCmd { return cmds[vx.Choose("command", len(cmds))] }

func advance(cmds []fs.FdoCmd) {
	vx.Option("concrete-rand", 2)
	vx.Assumption("the device under test sends correct messages; random choices of the fault generators are fixed (C20 treats them)")
	cmd := pick(cmds)
	d := newDevice(cmd)
	i := vx.Choose("test", len(d.run.Tests[cmd]))
	r := d.stand(cmd, i)
	d.save()
	if i > 0 {
		last := d.run.Tests[cmd][i-1]
		// how the device took the last test
		next := map[fs.FdoCmd][]fs.FdoCmd{30: {32}, 60: {62}, 62: {62, 64}, 64: {66}, 66: {68}, 68: {68, 70}}[cmd]
		switch vx.Choose("reaction", 1+vx.Bound("accepted messages", 2, 3)) {
		case 0:
			// it gave up and starts anew
			r.results = append(r.results, result{last, true})
		case 1:
			if len(next) == 0 {
				return
			}
			d.send(next[vx.Choose("next", len(next))], cmd+1)
			r.results = append(r.results, result{last, false})
			holds(d.load(), []run{*r}, "run after an accepted bad message")
		default:
			if len(next) == 0 {
				return
			}
			// it goes on and on
			n := next[vx.Choose("next", len(next))]
			d.send(n, cmd+1)
			d.send(n, cmd+1)
			r.results = append(r.results, result{last, false})
			holds(d.load(), []run{*r}, "run after an accepted bad message")
		}
	}
	// the messages up to the command are answered and record nothing more
	for _, c := range d.seq {
		if c == cmd {
			break
		}
		if c == 62 {
			vx.Assert(vxs.OK(d.send(62, 61), "63") && vxs.OK(d.send(62, 63), "63"), "a completed command is answered as usual")
			continue
		}
		vx.Assert(vxs.OK(d.send(c, before[c]), (c+1).ToString()), "a completed command is answered as usual")
	}
	d.send(cmd, before[cmd])
	d.answered(r, cmd, i)
}

// H_to1, H_to2: wherever a run stands, the next message of the device under
// test moves it on exactly.
func H_to1() { advance([]fs.FdoCmd{30, 32}) }

func H_to2() { advance([]fs.FdoCmd{60, 62, 64, 66, 68, 70}) }

// H_idle: without a run in progress nothing is recorded and every correct
// message is answered correctly.
func H_idle() {
	vx.Option("concrete-rand", 2)
	cmd := []fs.FdoCmd{30, 32, 60, 62, 64, 66, 68, 70}[vx.Choose("message", 8)]
	d := newDevice(cmd)
	var want []run
	how := vx.Choose("runs", 4)
	if how > 0 {
		at := d.seq[vx.Choose("at", len(d.seq))]
		r := d.stand(at, vx.Choose("test", len(d.run.Tests[at])))
		switch how {
		case 1:
			vx.Assert(d.run.RemoveTestRun(r.id) == nil, "a run can be removed")
		case 2: // all done
			for k, c := range d.seq {
				if k > 0 {
					d.run.CompleteCmdAndSetNext(c)
				}
			}
			d.run.CompleteTestRun()
			want = []run{*r}
		case 3: // completed and removed
			for k, c := range d.seq {
				if k > 0 {
					d.run.CompleteCmdAndSetNext(c)
				}
			}
			d.run.CompleteTestRun()
			vx.Assert(d.run.RemoveTestRun(r.id) == nil, "a run can be removed")
		}
	}
	if how == 2 {
		want[0].results = nil
		for _, x := range d.run.TestRunHistory[0].TestRuns {
			want[0].results = append(want[0].results, result{x.TestID, x.Passed})
		}
	}
	d.save()
	ok := vxs.OK(d.send(cmd, before[cmd]), (cmd + 1).ToString())
	vx.Assert(ok, "without a run a device is answered as usual")
	g := d.load()
	vx.Assert(!g.Running, "a message starts no run")
	holds(g, want, "idle runner")
	// and the next run starts afresh
	g.StartNewTestRun()
	want = append(want, run{id: g.CurrentTestRun.Uuid})
	holds(g, want, "runner started again")
	vx.Assert(g.CheckExpectedCmd(d.seq[0]) && !g.CheckCmdTestingIsCompleted(d.seq[0]), "a started run expects the first command")
	vx.Assert(g.GetNextTestID() == d.run.Tests[d.seq[0]][0], "a started run begins with the first test")
}
