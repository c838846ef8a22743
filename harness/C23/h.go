package main

import (
	"archive/zip"
	"bytes"
	"context"
	"crypto"
	"crypto/x509"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/gorilla/mux"

	"github.com/fido-alliance/iot-fdo-conformance-tools/api"
	"github.com/fido-alliance/iot-fdo-conformance-tools/api/testapi"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/common"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	tc "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	tdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	ltest "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/listener"
	rtest "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/request"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

func must(err error) {
	if err != nil {
		panic("h: " + err.Error())
	}
}

func guid(b byte) (g fs.FdoGuid) {
	for i := range g {
		g[i] = b + byte(i)
	}
	return
}

// owner is a user with a target of each kind.
type owner struct {
	email string
	name  string // in its targets' names
	rv    [2]rtest.RequestTestInst
	do    rtest.RequestTestInst
	dev   ltest.RequestListenerInst
	runs  [4]string
	guid  fs.FdoGuid
	entry fs.VoucherDBEntry
}

type world struct {
	db       *badger.DB
	ctx      context.Context
	h        http.Handler
	sessions *dbs.SessionDB
	users    *dbs.UserTestDB
	reqs     *tdbs.RequestTestDB
	lst      *tdbs.ListenerTestDB
	a, b     *owner
	sent     []string
}

func state(t tc.FDOTestID) tc.FDOTestState { return tc.FDOTestState{TestID: t, Passed: true} }

func (w *world) addOwner(name string, seed byte) *owner {
	o := &owner{email: name + "@fido.example", name: name, guid: guid(seed)}
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: o.guid})
	key, err := x509.MarshalPKCS8PrivateKey(v.OwnerKey())
	must(err)
	entry := fs.VoucherDBEntry{Voucher: v.V, PrivateKeyX509: key}
	o.entry = entry
	for i := range o.rv {
		o.rv[i] = rtest.NewRequestTestInst("http://rv-"+name+".example", fs.FdoToProtocol(i))
		o.rv[i].FdoSeedIDs = fs.FdoSeedIDs{fs.StSECP256R1: fs.FdoGuidList{o.guid}}
		r := rtest.NewRVTestRun(fs.FdoToProtocol(i))
		o.rv[i].TestsHistory = append(o.rv[i].TestsHistory, r)
		o.runs[i] = r.Uuid
		must(w.reqs.Save(o.rv[i]))
	}
	o.do = rtest.NewRequestTestInst("http://do-"+name+".example", fs.To2)
	o.do.TestVouchers = rtest.TestVouchers{tc.NULL_TEST: {{VoucherDBEntry: entry, WawDeviceCredential: vxs.Cred(v)}}}
	r := rtest.NewRVTestRun(fs.To2)
	o.do.TestsHistory = append(o.do.TestsHistory, r)
	o.runs[2] = r.Uuid
	must(w.reqs.Save(o.do))
	o.dev = ltest.NewDevice_RequestListenerInst(entry, o.guid)
	lr := ltest.NewListenerTestRun(fs.To1)
	o.dev.To1.TestRunHistory = append(o.dev.To1.TestRunHistory, lr)
	o.runs[3] = lr.Uuid
	must(w.lst.Save(o.dev))
	must(w.users.Save(dbs.UserTestDBEntry{Email: o.email, Name: name,
		RVTestInsts:     []dbs.RVTestInst{dbs.NewRVTestInst(o.rv[0].URL, o.rv[0].Uuid, o.rv[1].Uuid)},
		DOTestInsts:     []dbs.DOTestInst{dbs.NewDOTestInst(o.do.URL, o.do.Uuid)},
		DeviceTestInsts: []dbs.DeviceTestInst{dbs.NewDeviceTestInst("dev-"+name, o.dev.Uuid, o.guid)},
	}))
	return o
}

func newWorld() *world {
	vx.Option("concrete-rand", 2)
	db := vxm.OpenDB()
	w := &world{db: db, sessions: dbs.NewSessionDB(db), users: dbs.NewUserTestDB(db), reqs: tdbs.NewRequestTestDB(db), lst: tdbs.NewListenerTestDB(db)}
	w.a, w.b = w.addOwner("alice", 1), w.addOwner("bob", 101)
	c, err := fs.NewWawDeviceCredential(fs.StSECP256R1)
	must(err)
	c.DCGuid = guid(50)
	base := dbs.NewDeviceBaseDB(db)
	must(base.Save(*c))
	for _, o := range []*owner{w.a, w.b} {
		c.DCGuid = o.guid
		must(base.Save(*c))
	}
	c384, err := fs.NewWawDeviceCredential(fs.StSECP384R1)
	must(err)
	c384.DCGuid = guid(30)
	must(base.Save(*c384))
	must(dbs.NewConfigDB(db).Save(dbs.MainConfig{SeededGuids: fs.FdoSeedIDs{fs.StSECP256R1: fs.FdoGuidList{guid(50)}, fs.StSECP384R1: fs.FdoGuidList{guid(30)}}}))
	vxs.Net(func(m vxs.Sent) (*http.Response, error) {
		w.sent = append(w.sent, m.Url)
		return nil, vxs.ErrNet
	})
	w.ctx = vxs.CtxFor("http://tool.example")
	http.DefaultServeMux = http.NewServeMux()
	api.SetupServer(db, w.ctx)
	w.h = http.DefaultServeMux
	return w
}

func (w *world) call(method, path, cookie string, body []byte) *vxm.Rec {
	hd := map[string]string{"Content-Type": "application/json"}
	if cookie != "" {
		hd["Cookie"] = cookie
	}
	rec := vxm.NewRec()
	w.h.ServeHTTP(rec, vxm.NewReq(method, path, body, hd))
	return rec
}

func (w *world) login(o *owner) string {
	id, err := w.sessions.NewSessionEntry(dbs.SessionEntry{Email: o.email, LoggedIn: true})
	must(err)
	return "session=" + string(id)
}

// cookie is a session state; the user is set if it is live.
func (w *world) cookie(kind int) (string, *owner) {
	entry := func(s dbs.SessionEntry) string {
		id, err := w.sessions.NewSessionEntry(s)
		must(err)
		return "session=" + string(id)
	}
	a := w.login(w.a)
	b := w.login(w.b)
	switch kind {
	case 0:
		return a, w.a
	case 1:
		return b, w.b
	case 2:
		return "", nil
	case 3:
		return "session=", nil
	case 4:
		return "session=6ba7b810-9dad-11d1-80b4-00c04fd430c8", nil
	case 5:
		return entry(dbs.SessionEntry{Email: w.a.email}), nil
	case 6:
		return entry(dbs.SessionEntry{Email: "carol@fido.example", LoggedIn: true}), nil
	case 7:
		rec := w.call("POST", "/api/user/logout", a, nil)
		vx.Assert(rec.Code == 200, "a user logs out")
		return a, nil
	case 8:
		vxm.Advance(w.db, 8*24*time.Hour)
		return a, nil
	case 9:
		return strings.Replace(a, "session", "Session2", 1), nil
	case 10:
		rv := vxs.RVOn(w.db)
		tok, _ := rv.Hello0()
		return "session=" + strings.TrimPrefix(tok, "Bearer "), nil
	case 11:
		return a[:len(a)-1], nil
	case 12:
		return entry(dbs.SessionEntry{LoggedIn: true}), nil
	}
	return entry(dbs.SessionEntry{PasswordResetEmail: w.a.email, OAuth2Email: w.a.email}), nil
}

const cookies = 14

type op struct {
	name   string
	method string
	path   string
	body   any
	read   bool // changes nothing
}

func (e *ends) inBody(b []byte) string {
	c := *e
	c.body = true
	return c.id(b)
}

// ops are the calls about the target.
func ops(o *owner, e *ends) []op {
	return []op{
		{name: "delete rv run", method: "DELETE", path: "/api/rvt/testruns/" + e.id(o.rv[e.i].Uuid) + "/" + o.runs[e.i]},
		{name: "run rv", method: "POST", path: "/api/rvt/execute", body: map[string]string{"id": e.inBody(o.rv[e.i].Uuid)}},
		{name: "delete do run", method: "DELETE", path: "/api/dot/testruns/" + e.id(o.do.Uuid) + "/" + o.runs[2]},
		{name: "run do", method: "POST", path: "/api/dot/execute", body: map[string]string{"id": e.inBody(o.do.Uuid)}},
		{name: "vouchers", method: "GET", path: "/api/dot/vouchers/" + e.id(o.do.Uuid), read: true},
		{name: "start device run", method: "POST", path: "/api/device/testruns/1/" + e.id(o.dev.Uuid)},
		{name: "delete device run", method: "DELETE", path: "/api/device/testruns/1/" + e.id(o.dev.Uuid) + "/" + o.runs[3]},
	}
}

type ends struct {
	i    int
	body bool
	bad  int
}

// id is the id in the request.
func (e *ends) id(b []byte) string {
	s := hex.EncodeToString(b)
	switch e.bad {
	case 1: // another one
		c := append([]byte{}, b...)
		c[15] ^= 1
		return hex.EncodeToString(c)
	case 2:
		return s[:30]
	case 3:
		return s + "00"
	case 4:
		return "zz"
	case 5:
		if e.body {
			return ""
		}
	}
	return s
}

func (w *world) do(p op, cookie string) *vxm.Rec {
	var b []byte
	if p.body != nil {
		var err error
		b, err = json.Marshal(p.body)
		must(err)
	}
	return w.call(p.method, p.path, cookie, b)
}

func same(a, b []vxm.KV) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Key != b[i].Key || a[i].Val != b[i].Val {
			return false
		}
	}
	return true
}

// silent: the answer tells nothing about the user's targets.
func (w *world) silent(rec *vxm.Rec, o *owner) bool {
	for _, s := range []string{o.name, hex.EncodeToString(o.guid[:]), o.runs[0], o.runs[1], o.runs[2], o.runs[3], hex.EncodeToString(o.rv[0].Uuid), hex.EncodeToString(o.rv[1].Uuid), hex.EncodeToString(o.do.Uuid), hex.EncodeToString(o.dev.Uuid)} {
		if bytes.Contains(rec.Body, []byte(s)) {
			return false
		}
	}
	return true
}

func (w *world) refused(rec *vxm.Rec, before []vxm.KV) {
	vx.Assert(rec.Code >= 400, "a call without a live session of the target's owner is refused")
	vx.Assert(w.silent(rec, w.a) && w.silent(rec, w.b) && rec.H.Get("Content-Type") != "application/zip", "a refused call tells nothing about a target")
	vx.Assert(same(before, vxm.Dump(w.db)), "a refused call changes nothing")
	vx.Assert(len(w.sent) == 0, "a refused call sends nothing")
}

// H_target: a call about a target acts exactly for its owner.
func H_target() {
	w := newWorld()
	ck, user := w.cookie(vx.Choose("session", cookies))
	e := &ends{i: vx.Choose("rv protocol", 2), bad: vx.Choose("id", 6)}
	l := ops(w.a, e)
	p := l[vx.Choose("call", len(l))]
	before := vxm.Dump(w.db)
	rec := w.do(p, ck)
	if user != w.a || e.bad != 0 && !(e.bad == 5 && p.body == nil) {
		w.refused(rec, before)
		vx.Reach("refused")
		return
	}
	vx.Assert(rec.Code == 200, "the owner's call succeeds: "+p.name)
	w.effect(p, before, rec)
}

// effect checks what a call of alice's did, and that bob's targets stay.
func (w *world) effect(p op, before []vxm.KV, rec *vxm.Rec) {
	vx.Assert(w.silent(rec, w.b), "a call tells nothing about another user's target")
	after := vxm.Dump(w.db)
	if p.read {
		vx.Assert(same(before, after), "a reading call changes nothing")
	}
	own := func(k string) bool {
		for _, id := range [][]byte{w.a.rv[0].Uuid, w.a.rv[1].Uuid, w.a.do.Uuid, w.a.dev.Uuid, w.a.guid[:]} {
			if strings.Contains(k, string(id)) {
				return true
			}
		}
		return strings.Contains(k, "alice")
	}
	vals := map[string]string{}
	for _, k := range after {
		vals[k.Key] = k.Val
	}
	for _, k := range before {
		if !own(k.Key) {
			v, ok := vals[k.Key]
			vx.Assert(ok && v == k.Val, "a call changes no one else's data")
		}
	}
	for _, u := range w.sent {
		vx.Assert(strings.HasPrefix(u, "http://rv-alice.example/") || strings.HasPrefix(u, "http://do-alice.example/"), "a call sends only to its target")
	}
	switch p.name {
	case "run rv", "run do":
		vx.Assert(len(w.sent) > 0, "a run sends requests to the target")
	case "delete rv run", "delete do run":
		n := 0
		for _, x := range []rtest.RequestTestInst{w.a.rv[0], w.a.rv[1], w.a.do} {
			r, err := w.reqs.Get(x.Uuid)
			vx.Assert(err == nil, "the target stays")
			n += len(r.TestsHistory)
		}
		vx.Assert(n == 2, "the run is gone")
	case "delete device run":
		r, err := w.lst.Get(w.a.dev.Uuid)
		vx.Assert(err == nil && len(r.To1.TestRunHistory) == 0, "the run is gone")
	case "start device run":
		r, err := w.lst.Get(w.a.dev.Uuid)
		vx.Assert(err == nil && r.To1.Running, "the run is started")
	case "vouchers":
		vx.Assert(rec.H.Get("Content-Type") == "application/zip", "the vouchers are given")
		z, err := zip.NewReader(bytes.NewReader(rec.Body), int64(len(rec.Body)))
		vx.Assert(err == nil && len(z.File) == 1, "the given archive holds the target's vouchers")
		f, err := z.File[0].Open()
		vx.Assert(err == nil, "the given archive holds the target's vouchers")
		text, err := io.ReadAll(f)
		vx.Assert(err == nil, "the given archive holds the target's vouchers")
		v, err := common.DecodePemVoucherAndKey(string(text))
		vx.Assert(err == nil && bytes.Equal(v.PrivateKeyX509, w.a.entry.PrivateKeyX509) && bytes.Equal(v.Voucher.OVHeaderTag, w.a.entry.Voucher.OVHeaderTag), "the given archive holds the target's vouchers")
	}
	vx.Reach("done: " + p.name)
}

func pemKey(k any) string {
	b, err := x509.MarshalPKCS8PrivateKey(k)
	must(err)
	return string(pem.EncodeToMemory(&pem.Block{Type: fs.PRIVATE_KEY_PEM_TYPE, Bytes: b}))
}

// H_user: calls about all targets of a user show or change those of the session's user alone.
func H_user() {
	w := newWorld()
	ck, user := w.cookie(vx.Choose("session", cookies))
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: guid(70)})
	key, err := x509.MarshalPKCS8PrivateKey(v.OwnerKey())
	must(err)
	text, err := device.MarshalVoucherAndPrivateKey(fs.VoucherDBEntry{Voucher: v.V, PrivateKeyX509: key})
	must(err)
	sg := fs.SgTypeList[vx.Choose("owner key", 4)]
	ownerKey, _ := vxf.Key(sg)
	l := []op{
		{name: "list rv", method: "GET", path: "/api/rvt/testruns", read: true},
		{name: "list do", method: "GET", path: "/api/dot/testruns", read: true},
		{name: "list device", method: "GET", path: "/api/device/testruns", read: true},
		{name: "purge", method: "POST", path: "/api/user/purgetests"},
		{name: "create rv", method: "POST", path: "/api/rvt/create", body: map[string]string{"url": "http://new.example"}},
		{name: "create do", method: "POST", path: "/api/dot/create", body: map[string]string{"url": "http://new.example", "priv_key": pemKey(ownerKey)}},
		{name: "create device", method: "POST", path: "/api/device/create", body: map[string]string{"name": "new", "voucher": string(text)}},
	}
	if vx.Bool("rendezvous answers") {
		rv := vxs.RVOn(w.db)
		vxs.Net(func(m vxs.Sent) (*http.Response, error) {
			w.sent = append(w.sent, m.Url)
			rec := rv.Answer(m)
			return vxs.Reply(rec.Code, rec.H.Get("Authorization"), rec.Body), nil
		})
	}
	p := l[vx.Choose("call", len(l))]
	before := vxm.Dump(w.db)
	rec := w.do(p, ck)
	if user == nil {
		w.refused(rec, before)
		return
	}
	other := w.b
	if user == w.b {
		other = w.a
	}
	vx.Assert(w.silent(rec, other), "a call tells nothing about another user's targets")
	after := map[string]string{}
	for _, k := range vxm.Dump(w.db) {
		after[k.Key] = k.Val
	}
	for _, k := range before {
		if !strings.Contains(k.Key, user.email) && !strings.HasPrefix(k.Key, "session-") {
			s, ok := after[k.Key]
			vx.Assert(ok && s == k.Val, "a call changes no one else's data")
		}
	}
	if p.read {
		vx.Assert(rec.Code == 200, "a user lists own targets")
		vx.Assert(same(before, vxm.Dump(w.db)), "a reading call changes nothing")
		id := map[string][]byte{"list rv": user.rv[1].Uuid, "list do": user.do.Uuid, "list device": user.dev.Uuid}[p.name]
		vx.Assert(bytes.Contains(rec.Body, []byte(hex.EncodeToString(id))), "a user's own target is listed")
	}
	u, err := w.users.Get(user.email)
	vx.Assert(err == nil, "the user stays")
	n := [3]int{len(u.RVTestInsts), len(u.DOTestInsts), len(u.DeviceTestInsts)}
	want := [3]int{1, 1, 1}
	switch p.name {
	case "purge":
		want = [3]int{}
	case "create rv":
		want[0] = 2
	case "create do":
		want[1] = 2
		t, err := w.reqs.Get(u.DOTestInsts[len(u.DOTestInsts)-1].To2)
		vx.Assert(err == nil && t.URL == "http://new.example", "the target has the given address")
		got := t.TestVouchers[tc.NULL_TEST]
		vx.Assert(len(got) == 1, "the target has a voucher")
		priv, err := x509.ParsePKCS8PrivateKey(got[0].VoucherDBEntry.PrivateKeyX509)
		vx.Assert(err == nil && priv.(interface{ Equal(crypto.PrivateKey) bool }).Equal(ownerKey), "the target's voucher is for the given key")
	case "create device":
		if rec.Code == 200 {
			want[2] = 2
		}
	}
	if p.name != "create device" {
		vx.Assert(rec.Code == 200, "a user's call succeeds: "+p.name)
	}
	vx.Assert(n == want, "a user gets what the call makes: "+p.name)
	vx.Reach("done: " + p.name)
}

func (w *world) handlers() (*testapi.RVTestMgmtAPI, *testapi.DOTestMgmtAPI, *testapi.DeviceTestMgmtAPI) {
	base, conf := dbs.NewDeviceBaseDB(w.db), dbs.NewConfigDB(w.db)
	return &testapi.RVTestMgmtAPI{UserDB: w.users, ReqTDB: w.reqs, DevBaseDB: base, SessionDB: w.sessions, ConfigDB: conf, Ctx: w.ctx},
		&testapi.DOTestMgmtAPI{UserDB: w.users, ReqTDB: w.reqs, DevBaseDB: base, SessionDB: w.sessions, ConfigDB: conf},
		&testapi.DeviceTestMgmtAPI{UserDB: w.users, ListenerDB: w.lst, DevBaseDB: base, SessionDB: w.sessions, ConfigDB: conf, DOVouchersDB: dodbs.NewVoucherDB(w.db), Ctx: w.ctx}
}

// isHex: the text is that id in hexadecimal, in either case.
func isHex(s string, id []byte) bool {
	if len(s) != 2*len(id) {
		return false
	}
	lower, upper := hex.EncodeToString(id), strings.ToUpper(hex.EncodeToString(id))
	r := true
	for i := range lower {
		r = vx.And(r, vx.Or(s[i] == lower[i], s[i] == upper[i]))
	}
	return r
}

// H_owner: whatever id a user names, a call acts only if it is the id of one of the user's own targets.
func H_owner() {
	w := newWorld()
	rv, do, dev := w.handlers()
	id := string(vx.Bytes("id", 32-vx.Bound("shorter ids", 1, 4)+vx.Choose("length", vx.Bound("lengths", 3, 8))))
	run := w.a.runs
	calls := []struct {
		method string
		f      func(http.ResponseWriter, *http.Request)
		vars   map[string]string
		own    [][]byte
	}{
		{"DELETE", rv.DeleteTestRun, map[string]string{"testrunid": run[vx.Choose("run", 2)]}, [][]byte{w.a.rv[0].Uuid, w.a.rv[1].Uuid}},
		{"DELETE", do.DeleteTestRun, map[string]string{"testrunid": run[2]}, [][]byte{w.a.do.Uuid}},
		{"GET", do.GetVouchers, nil, [][]byte{w.a.do.Uuid}},
		{"DELETE", dev.DeleteTestRun, map[string]string{"testrunid": run[3], "toprotocol": "1"}, [][]byte{w.a.dev.Uuid}},
		{"POST", dev.StartNewTestRun, map[string]string{"toprotocol": "1"}, [][]byte{w.a.dev.Uuid}},
	}
	c := calls[vx.Choose("call", len(calls))]
	vars := map[string]string{"testinsthex": id, "uuid": id}
	for _, k := range []string{"testrunid", "toprotocol"} {
		if s, ok := c.vars[k]; ok {
			vars[k] = s
		}
	}
	ck := w.login(w.a)
	before := vxm.Dump(w.db)
	rec := vxm.NewRec()
	c.f(rec, mux.SetURLVars(vxm.NewReq(c.method, "/", nil, map[string]string{"Content-Type": "application/json", "Cookie": ck}), vars))
	own := false
	for _, o := range c.own {
		own = vx.Or(own, isHex(id, o))
	}
	vx.Expect("named an own target")
	vx.Expect("named no own target")
	vx.Assert((rec.Code == 200) == own, "a call succeeds exactly for an id of the user's own")
	if rec.Code == 200 {
		vx.Reach("named an own target")
		return
	}
	vx.Reach("named no own target")
	w.refused(rec, before)
}

// H_session: only a session's exact token stands for its user.
func H_session() {
	w := newWorld()
	ck := w.login(w.a)
	exact := ck[len("session="):]
	w.login(w.b)
	n := len(exact) - vx.Bound("shorter tokens", 1, 2) + vx.Choose("length", vx.Bound("lengths", 3, 5))
	tok := vx.Bytes("token", n)
	for _, b := range tok {
		vx.Assume(vx.And(vx.And(b > ' ', b < 0x7f), vx.And(vx.And(b != '"', b != ','), vx.And(b != ';', b != '\\'))))
	}
	l := []op{
		{method: "GET", path: "/api/rvt/testruns"},
		{method: "GET", path: "/api/dot/testruns"},
		{method: "GET", path: "/api/device/testruns"},
		{method: "GET", path: "/api/user/loggedin"},
		{method: "POST", path: "/api/user/purgetests"},
		{method: "POST", path: "/api/user/logout"},
	}
	p := l[vx.Choose("call", len(l))]
	before := vxm.Dump(w.db)
	rec := w.do(p, "session="+string(tok))
	vx.Expect("a live token")
	vx.Expect("no live token")
	if rec.Code < 400 {
		live := false
		for _, k := range before {
			if s, ok := strings.CutPrefix(k.Key, "session-"); ok {
				live = vx.Or(live, vx.EqStr(string(tok), s))
			}
		}
		vx.Assert(live, "only a session's exact token is accepted")
		if !vx.EqStr(string(tok), exact) {
			vx.Assert(w.silent(rec, w.a), "another session shows nothing of the user's")
			a, err := w.users.Get(w.a.email)
			vx.Assert(err == nil && len(a.RVTestInsts) == 1, "another session changes nothing of the user's")
			_, err = w.sessions.GetSessionEntry([]byte(exact))
			vx.Assert(err == nil, "another session does not end the user's")
		}
		vx.Reach("a live token")
		return
	}
	vx.Reach("no live token")
	w.refused(rec, before)
}

func setCookie(rec *vxm.Rec) string {
	s := rec.H.Get("Set-Cookie")
	if i := strings.IndexByte(s, ';'); i >= 0 {
		s = s[:i]
	}
	return s
}

// H_login: a login gives its own session, which lasts until logout and no longer.
func H_login() {
	w := newWorld()
	old := w.login(w.a)
	first := vx.Bool("a first login")
	var one string
	if !first {
		rec := w.call("POST", "/api/user/login/onprem", "", nil)
		vx.Assert(rec.Code == 200, "a login succeeds")
		one = setCookie(rec)
	}
	ck := []string{"", old, one, "session=zz"}[vx.Choose("cookie sent", 4)]
	rec := w.call("POST", "/api/user/login/onprem", ck, nil)
	vx.Assert(rec.Code == 200, "a login succeeds")
	two := setCookie(rec)
	vx.Assert(strings.HasPrefix(two, "session=") && len(two) > 20 && two != one && two != old, "a login makes a new session")
	vx.Assert(strings.Contains(strings.ToLower(rec.H.Get("Set-Cookie")), "httponly"), "the session cookie is kept from scripts")
	rec = w.call("POST", "/api/rvt/create", two, []byte(`{"url":"http://new.example"}`))
	vx.Assert(rec.Code == 200, "a logged-in user creates a target")
	list := func(ck, want string, n int) {
		rec := w.call("GET", "/api/rvt/testruns", ck, nil)
		vx.Assert(rec.Code == 200 && bytes.Contains(rec.Body, []byte(want)) && bytes.Count(rec.Body, []byte(`"url"`)) == n, "a user sees own targets and no others")
	}
	list(two, "new.example", 1)
	if !first {
		list(one, "new.example", 1)
	}
	list(old, "rv-alice", 1)
	third := w.call("POST", "/api/user/login/onprem", "", nil)
	vx.Assert(third.Code == 200, "a login succeeds")
	list(setCookie(third), "new.example", 1)
	rec = w.call("POST", "/api/user/logout", two, nil)
	vx.Assert(rec.Code == 200 && setCookie(rec) == "session=", "a logout succeeds")
	before := vxm.Dump(w.db)
	for _, p := range []op{
		{method: "GET", path: "/api/rvt/testruns"},
		{method: "GET", path: "/api/dot/testruns"},
		{method: "GET", path: "/api/device/testruns"},
		{method: "GET", path: "/api/user/loggedin"},
		{method: "POST", path: "/api/user/purgetests"},
		{method: "POST", path: "/api/user/logout"},
		{method: "POST", path: "/api/rvt/create", body: map[string]string{"url": "http://new.example"}},
	} {
		w.refused(w.do(p, two), before)
	}
	list(setCookie(third), "new.example", 1)
	list(old, "rv-alice", 1)
	vx.Reach("login and logout")
}

// H_method: a call with the wrong method or content type is refused and does nothing.
func H_method() {
	w := newWorld()
	ck := w.login(w.a)
	e := &ends{}
	key, _ := vxf.Key(fs.StSECP256R1)
	l := ops(w.a, e)
	l = append(l[1:2:2], l[3], l[4])
	l = append(l, op{method: "GET", path: "/api/rvt/testruns"}, op{method: "GET", path: "/api/dot/testruns"}, op{method: "GET", path: "/api/device/testruns"},
		op{method: "GET", path: "/api/user/loggedin"}, op{method: "POST", path: "/api/user/purgetests"}, op{method: "POST", path: "/api/user/logout"},
		op{method: "POST", path: "/api/rvt/create", body: map[string]string{"url": "http://new.example"}},
		op{method: "POST", path: "/api/dot/create", body: map[string]string{"url": "http://new.example", "priv_key": pemKey(key)}},
		op{method: "POST", path: "/api/user/login/onprem"})
	p := l[vx.Choose("call", len(l))]
	m := []string{"GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "post"}[vx.Choose("method", 7)]
	ct := []string{"application/json", "", "text/plain", "application/cbor"}[vx.Choose("content type", 4)]
	var b []byte
	needs := p.body != nil || strings.HasSuffix(p.path, "onprem")
	if p.body != nil {
		var err error
		b, err = json.Marshal(p.body)
		must(err)
	}
	if m == p.method && (!needs || ct == "application/json") {
		return
	}
	before := vxm.Dump(w.db)
	rec := vxm.NewRec()
	w.h.ServeHTTP(rec, vxm.NewReq(m, p.path, b, map[string]string{"Content-Type": ct, "Cookie": ck}))
	w.refused(rec, before)
}

// H_many: a user may have many targets; each is made for the address given, listed, and reached by its own calls.
func H_many() {
	w := newWorld()
	ck := w.login(w.a)
	hosts := []string{"http://rv%d.example", "http://rv%d.example:8080", "https://[2001:db8::%d]:8443/", "http://10.1.2.%d", "https://rv%d.example:443"}
	rv := vx.Bool("rendezvous servers")
	n := vx.Bound("targets", 5, 12)
	k := 0
	if !rv {
		n = vx.Bound("owner targets", 4, 8)
		k = vx.Choose("first address", len(hosts))
	}
	key, _ := vxf.Key(fs.StSECP256R1)
	var urls []string
	for i := 0; i < n; i++ {
		u := fmt.Sprintf(hosts[(k+i)%len(hosts)], i+1)
		b := map[string]string{"url": u}
		p := op{method: "POST", path: "/api/rvt/create", body: b}
		if !rv {
			p.path = "/api/dot/create"
			b["priv_key"] = pemKey(key)
		}
		vx.Assert(w.do(p, ck).Code == 200, "a user makes a target")
		urls = append(urls, strings.TrimSuffix(u, "/"))
	}
	u, err := w.users.Get(w.a.email)
	vx.Assert(err == nil, "the user stays")
	path := map[bool]string{true: "/api/rvt/testruns", false: "/api/dot/testruns"}[rv]
	var ids [][]byte
	for _, t := range u.RVTestInsts {
		if rv {
			ids = append(ids, t.To0, t.To1)
		}
	}
	for _, t := range u.DOTestInsts {
		if !rv {
			ids = append(ids, t.To2)
		}
	}
	per := 1
	if rv {
		per = 2
	}
	vx.Assert(len(ids) == per*(n+1), "a user has every target made")
	rec := w.call("GET", path, ck, nil)
	vx.Assert(rec.Code == 200, "a user lists own targets")
	vx.Assert(bytes.Count(rec.Body, []byte(`"url"`)) == n+1, "every target is listed once")
	for i, id := range ids {
		t, err := w.reqs.Get(id)
		vx.Assert(err == nil, "a target made is stored")
		vx.Assert(bytes.Contains(rec.Body, []byte(hex.EncodeToString(id))), "every target is listed")
		if i >= per {
			vx.Assert(t.URL == urls[i/per-1], "the target has the given address")
			vx.Assert(bytes.Contains(rec.Body, []byte(`"`+t.URL+`"`)), "a target is listed with its address")
			vx.Assert((int(t.Protocol) == i%per) == rv && (t.Protocol == fs.To2) == !rv, "the target is of the kind asked for")
		}
	}
	rec = w.call("GET", path, w.login(w.b), nil)
	for _, id := range ids {
		vx.Assert(!bytes.Contains(rec.Body, []byte(hex.EncodeToString(id))), "a user sees own targets and no others")
	}
	vx.Reach("many targets")
}
