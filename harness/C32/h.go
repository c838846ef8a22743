// Package C32: interop reports.
package main

import (
	"context"
	"encoding/hex"
	"encoding/pem"
	"net/http"
	"os"

	"github.com/dgraph-io/badger/v4"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/to0"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/to2"
	rvpkg "github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	tdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/listener"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/fdomain"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

const (
	rvTok = "Bearer of the rendezvous server"
	doTok = "Bearer of the onboarding service"
	devTk = "Bearer of the device"
)

// settings of a component; with interop off nothing else is set.
func settings(on bool) context.Context {
	c := context.WithValue(vxs.CtxFor("http://owner.example"), fs.CFG_ENV_INTEROP_ENABLED, on)
	if on {
		c = context.WithValue(c, fs.CFG_ENV_INTEROP_DASHBOARD_URL, "http://dash/base")
		c = context.WithValue(c, fs.CFG_ENV_INTEROP_DASHBOARD_RV_AUTHZ, rvTok)
		c = context.WithValue(c, fs.CFG_ENV_INTEROP_DASHBOARD_DO_AUTHZ, doTok)
		c = context.WithValue(c, fs.CFG_ENV_INTEROP_DO_TOKEN_MAPPING, "[]")
	}
	return c
}

// board is the dashboard.
type board struct{ got []vxs.Sent }

// take answers a report in one of many ways.
func (b *board) take(m vxs.Sent) (*http.Response, error) {
	b.got = append(b.got, m)
	switch vx.Choose("dashboard", 5) {
	case 1:
		return nil, vxs.ErrNet
	case 2:
		return vxs.Reply(500, "", vxf.Marshal(fs.FdoError{EMErrorCode: 500, EMPrevMsgID: 70, EMErrorStr: "no", EMErrorTs: 1})), nil
	case 3:
		return vxs.Reply(404, "", []byte("<html>")), nil
	case 4: // an answer of any status
		return vxs.Reply(vx.Int("status", 100, 599), "Bearer x", vx.Bytes("answer", vx.Bound("answer bytes", 1, 2))), nil
	}
	return vxs.Reply(200, "", nil), nil
}

func (b *board) listen() { vxs.Net(b.take) }

// has checks that exactly the wanted report was made, or none.
func (b *board) has(want bool, g fs.FdoGuid, proto byte, n fs.FdoNonce, token string) {
	if !want {
		vx.Assert(len(b.got) == 0, "nothing is reported that is not an accepted exchange with interop on")
		return
	}
	vx.Assert(len(b.got) == 1, "an accepted exchange is reported once")
	if len(b.got) != 1 {
		return
	}
	m := b.got[0]
	vx.Assert(m.Url == "http://dash/base/logger/101/msg", "a report goes to the dashboard")
	vx.Assert(m.Ct == "application/cbor", "a report is CBOR")
	vx.Assert(m.Token == token, "a report carries the token of its component")
	w := append([]byte{0x83, 0x50}, g[:]...)
	w = append(append(w, proto, 0x50), n[:]...)
	vx.Assert(vx.EqBytes(m.Body, w), "a report names the device, the protocol and the nonce of the exchange")
}

func guid(name string) (g fs.FdoGuid) {
	copy(g[:], vx.Bytes(name, 16))
	return
}

// H_to0: the rendezvous server reports each registration it accepts.
func H_to0() {
	on := vx.Bool("interop")
	b := &board{}
	b.listen()
	s := vxs.RVCtx(vxm.OpenDB(), settings(on))
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: vxf.SgTypes[vx.Choose("owner key type", 2)], N: 1, Guid: guid("guid")})
	tok, n := s.Hello0()
	vx.Assert(len(b.got) == 0, "a hello is not reported")
	wait := vx.U32("wait")
	vx.Assume(wait != 0) // a registration for no time ends at once
	r := vxs.NewReg(v, n, wait)
	good := false
	switch vx.Choose("registration", 4) {
	case 0:
		good = true
	case 1: // another nonce
		r.To0d.NonceTO0Sign = fs.FdoNonce(guid("another nonce"))
		vx.Assume(r.To0d.NonceTO0Sign != n)
	case 2: // a stranger's
		r.Signer, _ = vxf.Key(v.Sg)
	case 3:
		r.Hash = &fs.HashOrHmac{Type: v.HashAlg, Hash: vx.Bytes("hash", 32)}
		vx.Assume(!vx.EqBytes(r.Hash.Hash, vxf.Hash(vxf.Marshal(r.To0d), v.HashAlg).Hash))
	}
	m := r.Message()
	rec := s.Post(22, &tok, vxf.Marshal(m))
	if good {
		vx.Assert(vxs.OK(rec, "23"), "a correct registration is accepted, whatever the dashboard does")
		o := rvpkg.NewOwnerSignDB(s.DB)
		e, err := o.Get(v.H.OVGuid)
		vx.Assert(err == nil && vx.EqBytes(vxf.Marshal(e.To1d), vxf.Marshal(m.To1d)), "an accepted registration is stored, whatever the dashboard does")
	} else {
		vxs.IsError(rec, 22)
	}
	b.has(on && good, v.H.OVGuid, 0, n, rvTok)
}

// underTest says which test a listener is at; none when there is no listener.
func underTest(db *badger.DB, v *vxf.Voucher, cmd fs.FdoCmd) bool {
	if !vx.Bool("listener") {
		return false
	}
	l := listener.NewDevice_RequestListenerInst(v.DBEntry(), v.H.OVGuid)
	run, seq := &l.To1, []fs.FdoCmd{30, 32}
	if cmd > 40 {
		run, seq = &l.To2, []fs.FdoCmd{60, 62, 64, 66, 68, 70}
	}
	running := vx.Bool("running")
	if running {
		run.StartNewTestRun()
		for k, c := range seq {
			if c == cmd {
				for i := vx.Choose("test", len(run.Tests[c])); i > 0; i-- {
					run.GetNextTestID()
					run.PushSuccess()
				}
				break
			}
			for range run.Tests[c] {
				run.GetNextTestID()
				run.PushSuccess()
			}
			run.CompleteCmdAndSetNext(seq[k+1])
		}
	}
	vx.Assert(tdbs.NewListenerTestDB(db).Save(l) == nil, "a listener is saved")
	return running
}

// H_to1: the rendezvous server reports each redirect it gives to a device that is not under test.
func H_to1() {
	vx.Option("concrete-rand", 2)
	on := vx.Bool("interop")
	b := &board{}
	db := vxm.OpenDB()
	v := vxf.Build(vxf.Opt{DevSg: vxf.SgTypes[vx.Choose("device key type", 2)], Sg: fs.StSECP256R1, N: 1, Guid: fs.FdoGuid{1, 2, 3}})
	off := vxs.RVOn(db)
	tok0, n0 := off.Hello0()
	vx.Assert(vxs.OK(off.Post(22, &tok0, vxf.Marshal(vxs.NewReg(v, n0, 3600).Message())), "23"), "a correct registration is accepted")
	tested := underTest(db, v, 32)
	b.listen()
	s := vxs.RVCtx(db, settings(on))
	n := fs.FdoNonce(guid("nonce"))
	tok := s.Session1(v.H.OVGuid, v.DevSg, n)
	key := v.DevKey
	p := fs.EATPayloadBase{EatNonce: n, EatUEID: fs.GenerateEatGuid(v.H.OVGuid)}
	good := false
	switch vx.Choose("proof", 3) {
	case 0:
		good = true
	case 1:
		key, _ = vxf.Key(v.DevSg)
	case 2:
		p.EatNonce = fs.FdoNonce(guid("another nonce"))
		vx.Assume(p.EatNonce != n)
	}
	c, err := fs.GenerateCoseSignature(vxf.Marshal(p), fs.ProtectedHeader{}, fs.UnprotectedHeader{}, key, v.DevSg)
	if err != nil {
		panic(err)
	}
	rec := s.Post(32, &tok, vxf.Marshal(*c))
	if good && !tested {
		vx.Assert(vxs.OK(rec, "33"), "a correct proof is accepted, whatever the dashboard does")
		o := rvpkg.NewOwnerSignDB(db)
		e, err := o.Get(v.H.OVGuid)
		vx.Assert(err == nil && vx.EqBytes(rec.Body, vxf.Marshal(e.To1d)), "a correct proof is answered with the redirect, whatever the dashboard does")
	}
	if !good {
		vxs.IsError(rec, 32)
	}
	b.has(on && good && !tested, v.H.OVGuid, 1, n, rvTok)
}

// H_to2: the onboarding service reports each session it completes with a device that is not under test.
func H_to2() {
	vx.Option("concrete-rand", 2)
	on := vx.Bool("interop")
	b := &board{}
	db := vxm.OpenDB()
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: fs.FdoGuid{1, 2, 3}})
	tested := underTest(db, v, 70)
	b.listen()
	s := vxs.DOWith(db, to2.NewDoTo2(db, settings(on)))
	s.Add(v)
	d := s.At(v, 69, fs.CIPHER_A128GCM)
	n := d.ProveDv
	good := vx.Choose("done", 2) == 0
	if !good {
		n = fs.FdoNonce(guid("another nonce"))
		vx.Assume(n != d.ProveDv)
	}
	body := d.Enc(vxf.Marshal(fs.Done70{NonceTO2ProveDv: n}))
	rec := s.Post(70, &d.Token, body)
	if good && !tested {
		vx.Assert(vxs.OK(rec, "71"), "a correct done is accepted, whatever the dashboard does")
		var a fs.Done271
		vx.Assert(fs.CborCust.Unmarshal(d.Dec(rec), &a) == nil && a.NonceTO2SetupDv == d.Setup, "a correct done is answered with the setup nonce, whatever the dashboard does")
		if vx.Bool("sent again") {
			vxs.IsError(s.Post(70, &d.Token, body), 70)
		}
	}
	if !good {
		vxs.IsError(rec, 70)
	}
	b.has(on && good && !tested, v.H.OVGuid, 2, d.Setup, doTok)
}

// H_owner: the onboarding service reports each registration a rendezvous server accepts from it.
func H_owner() {
	vx.Option("concrete-rand", 2)
	on := vx.Bool("interop")
	b := &board{}
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: guid("guid")})
	n := fs.FdoNonce(guid("nonce"))
	test := testcom.NULL_TEST
	if vx.Bool("conformance test") {
		l := []testcom.FDOTestID{testcom.FIDO_RVT_22_BAD_OWNERSIGN_ENCODING, testcom.FIDO_RVT_22_BAD_TO0SIGN_NONCE}
		test = l[vx.Choose("test", len(l))]
	}
	good := false
	posts := 0
	vxs.Net(func(m vxs.Sent) (*http.Response, error) {
		if m.Cmd != 22 {
			return b.take(m)
		}
		posts++
		vx.Assert(len(b.got) == 0, "nothing is reported before it is accepted")
		switch vx.Choose("answer of the rendezvous server", 4) {
		case 1:
			return nil, vxs.ErrNet
		case 2:
			return vxs.Reply(400, "Bearer t", vxf.Marshal(fs.FdoError{EMErrorCode: 101, EMPrevMsgID: 22, EMErrorStr: "no", EMErrorTs: 1})), nil
		case 3:
			return vxs.Reply(500, "Bearer t", vxf.Marshal(fs.AcceptOwner23{WaitSeconds: 77})), nil
		}
		good = test == testcom.NULL_TEST
		return vxs.Reply(200, "Bearer t", vxf.Marshal(fs.AcceptOwner23{WaitSeconds: 77})), nil
	})
	c := to0.NewTo0Requestor(fs.SRVEntry{SrvURL: "http://rv"}, v.DBEntry(), settings(on))
	acc, _, err := c.OwnerSign22(n, test)
	vx.Assert(posts == 1, "one registration is sent")
	if test == testcom.NULL_TEST {
		vx.Assert((err == nil && acc != nil) == good, "the rendezvous server's answer decides, whatever the dashboard does")
	}
	if good && acc != nil {
		vx.Assert(acc.WaitSeconds == 77, "the granted wait time is returned, whatever the dashboard does")
	}
	b.has(on && good, v.H.OVGuid, 0, n, doTok)
}

// H_device: the virtual device reports its onboarding with the token the owner gave it.
func H_device() {
	vx.Option("concrete-rand", 2)
	g := fs.FdoGuid{1, 2, 3}
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: g})
	on := vx.Bool("interop")
	mapped := vx.Bool("token for the device")
	b := &board{}
	defer vxm.Dir()()
	vxm.PutFile("d.pem", pem.EncodeToMemory(&pem.Block{Type: fs.CREDENTIAL_PEM_TYPE, Bytes: vxf.Marshal(vxs.Cred(v))}))
	c := settings(true)
	if mapped {
		other := fs.FdoGuid{9}
		c = context.WithValue(c, fs.CFG_ENV_INTEROP_DO_TOKEN_MAPPING, `[["`+hex.EncodeToString(other[:])+`","no"],["`+hex.EncodeToString(g[:])+`","`+devTk+`"]]`)
	}
	db := vxm.OpenDB()
	s := vxs.DOWith(db, to2.NewDoTo2(db, c))
	s.Add(v)
	env := map[fs.CONFIG_ENTRY]string{fs.CFG_ENV_INTEROP_DASHBOARD_URL: "http://dash/base/", fs.CFG_ENV_FDO_SERVICE_URL: "http://me", fs.CFG_ENV_INTEROP_DASHBOARD_RV_AUTHZ: rvTok, fs.CFG_ENV_INTEROP_DASHBOARD_DO_AUTHZ: doTok, fs.CFG_ENV_INTEROP_DO_TOKEN_MAPPING: "[]"}
	names := []fs.CONFIG_ENTRY{fs.CFG_ENV_INTEROP_DASHBOARD_URL, fs.CFG_ENV_FDO_SERVICE_URL, fs.CFG_ENV_INTEROP_DASHBOARD_RV_AUTHZ, fs.CFG_ENV_INTEROP_DASHBOARD_DO_AUTHZ, fs.CFG_ENV_INTEROP_DO_TOKEN_MAPPING}
	for _, k := range names {
		if on {
			os.Setenv(string(k), env[k])
			defer os.Unsetenv(string(k))
		} else {
			os.Unsetenv(string(k))
		}
	}
	fail := fs.FdoCmd(0)
	if vx.Bool("refused") {
		fail = []fs.FdoCmd{64, 66, 68, 70}[vx.Choose("refused message", 4)]
	}
	var service []vxs.Sent // the service's own report
	token, done := "", false
	vxs.Net(func(m vxs.Sent) (*http.Response, error) {
		if m.Cmd == 0 {
			if !done {
				service = append(service, m)
				return vxs.Reply(200, "", nil), nil
			}
			return b.take(m)
		}
		if m.Cmd == fail {
			return vxs.Reply(500, "", vxf.Marshal(fs.FdoError{EMErrorCode: 500, EMPrevMsgID: m.Cmd, EMErrorStr: "no", EMErrorTs: 1})), nil
		}
		rec := s.Answer(m)
		vx.Assert(rec.Code == 200, "the service accepts the device's messages")
		if t := rec.H.Get("Authorization"); t != "" {
			token = t
		}
		done = done || m.Cmd == 70
		return vxs.Reply(rec.Code, rec.H.Get("Authorization"), rec.Body), nil
	})
	os.Args = []string{"fdo", "iop", "to2", "http://do", "d.pem"}
	p, msg := vx.Try(fdomain.Main)
	vx.Assert(!p, "the device does not crash: "+msg)
	vx.Assert(done == (fail == 0), "an onboarding that is not refused completes")
	n := fs.FdoNonce{}
	if done {
		n = s.Session(token).NonceTO2SetupDv64
		vx.Assert(len(service) == 1, "the service reports the onboarding")
	}
	b.has(on && mapped && done, g, 2, n, devTk)
}
