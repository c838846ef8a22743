package main

import (
	"net/http"
	"strings"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	tc "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	tdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/request"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/testexec"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

var guid = fs.FdoGuid{0xa0, 1}

func voucher(n int) *vxf.Voucher {
	vx.Option("concrete-rand", 2)
	return vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: n, Guid: guid, Rv: vxf.SomeRv(), Secret: []byte("0123456789abcdef")})
}

// refusal is a well-formed FDO error with free fields, and its code.
func refusal() ([]byte, fs.FdoErrorCode) {
	c, m, s, t := vx.Bytes("error code", 2), vx.Byte("error message"), vx.Bytes("error text", 2), vx.Bytes("error time and id", 8)
	vx.Assume(vx.And(s[0] < 0x80, s[1] < 0x80))
	b := append([]byte{0x85, 0x19}, c...)
	b = append(b, 0x18, m, 0x62, s[0], s[1], 0x1a)
	b = append(b, t[:4]...)
	b = append(append(b, 0x1a), t[4:]...)
	return b, fs.FdoErrorCode(c[0])<<8 | fs.FdoErrorCode(c[1])
}

func positive(id tc.FDOTestID) bool {
	return strings.HasSuffix(string(id), "_POSITIVE") || strings.HasSuffix(string(id), "_CHECK_RESP")
}

// H_helpers: the verdict helpers.
func H_helpers() {
	status := vx.Int("status", -1, 1000)
	want := fs.FdoErrorCode(vx.U16("expected code"))
	body, code := refusal()
	valid := true
	switch vx.Choose("body", 6) {
	case 5:
		s := tc.ExpectedFdoSuccess(tc.FIDO_RVT_21_CHECK_RESP, status)
		vx.Assert(s.Passed == (status == http.StatusOK), "a test that expects success passes exactly for a success status")
		verdict(s, tc.FIDO_RVT_21_CHECK_RESP)
		return
	case 1:
		body, valid = body[:len(body)-1], false
	case 2:
		body, valid = append(body, 0), false
	case 3: // too short to be an FDO error
		body, valid = vx.Bytes("body", vx.Choose("body length", vx.Bound("body length", 2, 4))), false
	case 4: // not the five members
		body[0], valid = vx.Byte("head"), false
		vx.Assume(vx.And(body[0] != 0x85, vx.And(body[0] != 0x98, body[0] != 0x9f)))
		vx.Assume(vx.And(body[0] < 0xc0, body[0]>>5 != 3))
	}
	id := tc.FIDO_RVT_20_BAD_ENCODING
	refused := vx.And(status != http.StatusOK, valid)
	a := tc.ExpectAnyFdoError(body, id, want, status)
	vx.Assert(a.Passed == refused, "a test that expects any FDO error passes exactly for an FDO error")
	e := tc.ExpectFdoError(body, id, want, status)
	vx.Assert(e.Passed == vx.And(refused, code == want), "a test that expects an FDO error passes exactly for that FDO error")
	verdict(a, id)
	verdict(e, id)
}

func verdict(r tc.FDOTestState, id tc.FDOTestID) {
	vx.Assert(r.TestID == id, "a verdict names its test")
	vx.Assert(r.Passed == (r.Error == ""), "a verdict has an error text exactly when the test failed")
}

// X replaces the answer to a message.
type X struct {
	fail   bool
	keep   bool // keep the body
	status int
	body   []byte
	err    bool // the body is an FDO error
}

const kinds = 6

// answer is a kind of answer that is no correct answer to a correct message.
func answer(kind int) *X {
	x := &X{}
	switch kind {
	case 0:
		x.fail = true
		return x
	case 1:
		x.keep = true
	case 2, 3: // H_helpers has every FDO error
		x.body = []byte{0x85, 0x18, 101, 20, 0x62, 'n', 'o', 0x1a, 0x65, 0, 0, 0, 7}
		x.err = true
	case 4:
		x.body = []byte{0x82, 0, 0x40}
	case 5:
	}
	x.status = vx.Int("status", 100, 999)
	switch kind {
	case 1, 2:
		vx.Assume(x.status != http.StatusOK)
	case 3:
		vx.Assume(x.status == http.StatusOK)
	}
	return x
}

func (x *X) resp(real *vxm.Rec) (*http.Response, error) {
	if x.fail {
		return nil, vxs.ErrNet
	}
	if x.keep {
		return vxs.Reply(x.status, real.H.Get("Authorization"), real.Body), nil
	}
	return vxs.Reply(x.status, "", x.body), nil
}

// world is a run of tests against the tool's own servers.
type world struct {
	tests  []tc.FDOTestID
	hello  fs.FdoCmd // begins a test
	cmds   []fs.FdoCmd
	answer func(m vxs.Sent) *vxm.Rec
	run    func(in request.RequestTestInst, db *tdbs.RequestTestDB)
	in     request.RequestTestInst
}

// check runs the tests with the answer to one message replaced.
func (w *world) check() {
	t := vx.Choose("test", len(w.tests)+1) - 1
	pos := 0
	var x *X
	if t >= 0 {
		pos = vx.Choose("message", vx.Bound("messages of a test", 1+len(w.cmds), 12))
		if pos == 0 && positive(w.tests[t]) {
			return
		}
		if pos > 0 && pos <= len(w.cmds) && strings.Contains(string(w.tests[t]), "T_") && later(w.cmds[pos-1], w.tests[t]) {
			return
		}
		n := kinds
		if pos > 0 {
			n = vx.Bound("answers to other messages", 2, kinds)
		}
		x = answer(vx.Choose("answer", n))
	}
	seen = map[fs.FdoCmd]bool{}
	seen = map[fs.FdoCmd]bool{}
	bad := map[tc.FDOTestID]bool{} // the server refused
	cur, nth, hit, tested := -1, 0, false, false
	vxs.Net(func(m vxs.Sent) (*http.Response, error) {
		first := true
		if m.Cmd == w.hello {
			cur++
			nth = 0
			seen = map[fs.FdoCmd]bool{}
		}
		nth++
		first = !seen[m.Cmd]
		seen[m.Cmd] = true
		real := w.answer(m)
		refused := real.Code != http.StatusOK
		if cur >= 0 {
			bad[w.tests[cur]] = bad[w.tests[cur]] || refused
		}
		if t >= 0 && cur == t && !hit {
			switch {
			case pos == 0:
				hit = refused
			case pos <= len(w.cmds):
				hit = m.Cmd == w.cmds[pos-1] && first
			default:
				hit = nth == pos-len(w.cmds)+2
			}
			if hit {
				tested = refused
				return x.resp(real)
			}
		}
		return real.Resp(), nil
	})
	db := tdbs.NewRequestTestDB(vxm.OpenDB())
	if err := db.Save(w.in); err != nil {
		panic(err)
	}
	p, _ := vx.Try(func() { w.run(w.in, db) })
	vx.Assert(!p, "no answer crashes a test run")
	if t >= 0 && !hit {
		return
	}
	got, err := db.Get(w.in.Uuid)
	vx.Assert(err == nil, "a test run is stored")
	vx.Assert(!got.InProgress, "a test run ends")
	vx.Assert(len(got.TestsHistory) == 1, "a test run is one run")
	r := got.CurrentTestRun.Tests
	h := got.TestsHistory[0].Tests
	for i, id := range w.tests {
		switch {
		case t < 0 || i < t:
			vx.Assert(r[id].Passed == (bad[id] != positive(id)), "a test that is answered as it should be passes, any other fails")
		case i == t:
			pass := tested && !positive(id) && !x.fail && x.status != http.StatusOK && (x.err || x.keep)
			if pass {
				vx.Assert(r[id].Passed, "a test that expects a refusal passes for every FDO error")
			} else {
				vx.Assert(!r[id].Passed, "a test passes only if it was answered as it should be")
			}
			vx.Reach("replaced")
		}
		vx.Assert(r[id].Passed == h[id].Passed, "a verdict is kept in the history")
	}
}

var seen map[fs.FdoCmd]bool

// later reports whether cmd comes after the message id is a test of.
func later(cmd fs.FdoCmd, id tc.FDOTestID) bool {
	i := strings.Index(string(id), "T_")
	n := fs.FdoCmd(id[i+2]-'0')*10 + fs.FdoCmd(id[i+3]-'0')
	return cmd > n
}

func cat(l ...[]tc.FDOTestID) (r []tc.FDOTestID) {
	for _, x := range l {
		r = append(r, x...)
	}
	return
}

// H_do: the onboarding server tests.
func H_do() {
	v := voucher(2)
	do := vxs.NewDO()
	do.Add(v)
	w := &world{tests: cat(tc.FIDO_TEST_LIST_DOT_60, tc.FIDO_TEST_LIST_DOT_62, tc.FIDO_TEST_LIST_DOT_64, tc.FIDO_TEST_LIST_DOT_66, tc.FIDO_TEST_LIST_DOT_68, tc.FIDO_TEST_LIST_DOT_70),
		hello: 60, cmds: []fs.FdoCmd{60, 62, 64, 66, 68, 70}, answer: do.Answer, run: testexec.ExecuteDOTestsTo2}
	w.in = request.NewRequestTestInst("http://do.test", fs.To2)
	w.in.TestVouchers[tc.NULL_TEST] = []fs.DeviceCredAndVoucher{{VoucherDBEntry: v.DBEntry(), WawDeviceCredential: vxs.Cred(v)}}
	w.check()
}

func rvWorld(p fs.FdoToProtocol) (*world, *dbs.DeviceBaseDB) {
	v := voucher(0)
	s := vxs.NewRV()
	dev := dbs.NewDeviceBaseDB(vxm.OpenDB())
	c := vxs.Cred(v)
	if err := dev.Save(c); err != nil {
		panic(err)
	}
	w := &world{answer: s.Answer}
	w.in = request.NewRequestTestInst("http://rv.test", p)
	w.in.FdoSeedIDs = fs.FdoSeedIDs{fs.StSECP256R1: fs.FdoGuidList{guid}}
	return w, dev
}

// H_rv0: the registration tests.
func H_rv0() {
	w, dev := rvWorld(fs.To0)
	w.tests = cat(tc.FIDO_TEST_LIST_RVT_20, tc.FIDO_TEST_LIST_RVT_22, tc.FIDO_TEST_LIST_VOUCHER)
	w.hello, w.cmds = 20, []fs.FdoCmd{20, 22}
	w.run = func(in request.RequestTestInst, db *tdbs.RequestTestDB) {
		testexec.ExecuteRVTestsTo0(in, db, dev, vxs.CtxFor("https://do.test:8043"))
	}
	w.check()
}

// H_rv1: the redirect tests.
func H_rv1() {
	w, dev := rvWorld(fs.To1)
	w.tests = cat(tc.FIDO_TEST_LIST_DEVT_30, tc.FIDO_TEST_LIST_DEVT_32)
	w.hello, w.cmds = 30, []fs.FdoCmd{30, 32}
	w.run = func(in request.RequestTestInst, db *tdbs.RequestTestDB) {
		testexec.ExecuteRVTestsTo1(in, db, dev, vxs.CtxFor("https://do.test:8043"))
	}
	w.check()
}

// H_entries: the voucher entries an owner shows pass the positive test exactly when they are those asked for and
// lead from the device's manufacturer to the key the owner speaks with.
func H_entries() {
	max := vx.Bound("entries", 3, 6)
	n := 1 + vx.Choose("entries", max+1)
	if n > max {
		n = vx.Bound("longer chain", 7, 12)
	}
	v := voucher(n)
	evil, evilPub := vxf.Key(v.Sg)
	do := vxs.NewDO()
	do.Add(v)
	tests := cat(tc.FIDO_TEST_LIST_DOT_60, tc.FIDO_TEST_LIST_DOT_62, tc.FIDO_TEST_LIST_DOT_64, tc.FIDO_TEST_LIST_DOT_66, tc.FIDO_TEST_LIST_DOT_68, tc.FIDO_TEST_LIST_DOT_70)
	fault := vx.Choose("deviation", 10)
	at := 0
	if fault > 0 && fault < 6 {
		at = vx.Choose("entry", n)
	}
	cur, hit := -1, false
	vxs.Net(func(m vxs.Sent) (*http.Response, error) {
		if m.Cmd == 60 {
			cur++
		}
		real := do.Answer(m)
		body := real.Body
		if tests[cur] != tc.FIDO_DOT_62_POSITIVE {
			return real.Resp(), nil
		}
		if m.Cmd == 60 && fault > 5 {
			hit = true
			var c fs.CoseSignature
			var p fs.TO2ProveOVHdrPayload
			if fs.CborCust.Unmarshal(body, &c) != nil || fs.CborCust.Unmarshal(c.Payload, &p) != nil {
				panic("bad answer")
			}
			key, pub := v.OwnerKey(), &v.OwnerPub[n]
			switch fault {
			case 6: // a stranger who has the voucher
				key, pub = evil, &evilPub
			case 7: // without entries
				p.NumOVEntries = 0
			case 8: // keeping one entry back
				p.NumOVEntries = uint8(n - 1)
			case 9: // an earlier owner
				i := vx.Choose("owner", n)
				key, pub = v.Owner[i], &v.OwnerPub[i]
			}
			s, err := fs.GenerateCoseSignature(vxf.Marshal(p), fs.ProtectedHeader{}, fs.UnprotectedHeader{CUPHNonce: c.Unprotected.CUPHNonce, CUPHOwnerPubKey: pub}, key, v.Sg)
			if err != nil {
				panic(err)
			}
			body = vxf.Marshal(*s)
		}
		if m.Cmd == 62 && fault > 0 && fault < 6 {
			var e fs.OVNextEntry63
			if fs.CborCust.Unmarshal(body, &e) != nil {
				panic("bad answer")
			}
			if int(e.OVEntryNum) == at {
				hit = true
				switch fault {
				case 1:
					e.OVEntryNum = vx.Byte("entry number")
					vx.Assume(e.OVEntryNum != byte(at))
				case 2: // signed by a stranger
					e.OVEntry = v.Entry(vxf.Hash(v.Prev(at), v.HashAlg), v.OwnerPub[at+1], evil)
				case 3: // of another voucher
					e.OVEntry = v.Entry(vxf.Hash(v.Prev(at)[1:], v.HashAlg), v.OwnerPub[at+1], v.Owner[at])
				case 4: // naming a stranger
					e.OVEntry = v.Entry(vxf.Hash(v.Prev(at), v.HashAlg), evilPub, v.Owner[at])
				case 5:
					vx.Assume(n > 1)
					e.OVEntry = v.V.OVEntryArray[(at+1)%n]
				}
				body = vxf.Marshal(e)
			}
		}
		return vxs.Reply(real.Code, real.H.Get("Authorization"), body), nil
	})
	db := tdbs.NewRequestTestDB(vxm.OpenDB())
	in := request.NewRequestTestInst("http://do.test", fs.To2)
	in.TestVouchers[tc.NULL_TEST] = []fs.DeviceCredAndVoucher{{VoucherDBEntry: v.DBEntry(), WawDeviceCredential: vxs.Cred(v)}}
	if err := db.Save(in); err != nil {
		panic(err)
	}
	p, _ := vx.Try(func() { testexec.ExecuteDOTestsTo2(in, db) })
	vx.Assert(!p, "no answer crashes a test run")
	got, err := db.Get(in.Uuid)
	vx.Assert(err == nil && !got.InProgress && len(got.TestsHistory) == 1, "a test run ends")
	r := got.TestsHistory[0].Tests[tc.FIDO_DOT_62_POSITIVE]
	vx.Expect("right")
	vx.Expect("wrong")
	if fault == 0 {
		vx.Reach("right")
		vx.Assert(r.Passed, "the entries of the voucher pass")
		return
	}
	vx.Reach("wrong")
	vx.Assert(hit, "the deviation takes place")
	vx.Assert(!r.Passed, "entries that are not those asked for, or do not lead to the owner, fail")
}
