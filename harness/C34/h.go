// Package C34: all components on one server and one store.
package main

import (
	"encoding/pem"
	"net/http"
	"os"

	"github.com/dgraph-io/badger/v4"
	"github.com/fido-alliance/iot-fdo-conformance-tools/api"
	fdodo "github.com/fido-alliance/iot-fdo-conformance-tools/core/do"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/to0"
	fdorv "github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/fdomain"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

// server is everything the serve command sets up.
type server struct {
	db *badger.DB
	h  http.Handler
}

func newServer() *server {
	s := &server{db: vxm.OpenDB()}
	http.DefaultServeMux = http.NewServeMux()
	c := vxs.CtxFor("http://tool.example")
	fdodo.SetupServer(s.db, c)
	fdorv.SetupServer(s.db, c)
	api.SetupServer(s.db, c)
	s.h = http.DefaultServeMux
	return s
}

func (s *server) call(method, path string, hd map[string]string, body []byte) *vxm.Rec {
	rec := vxm.NewRec()
	req := vxm.NewReq(method, path, body, hd)
	p, msg := vx.Try(func() { s.h.ServeHTTP(rec, req) })
	vx.Assert(!p, "a request does not crash the server: "+msg)
	return rec
}

// msg posts a protocol message to its path.
func (s *server) msg(cmd fs.FdoCmd, token string, body []byte) *vxm.Rec {
	hd := map[string]string{"Content-Type": "application/cbor"}
	if token != "" {
		hd["Authorization"] = token
	}
	return s.call("POST", "/fdo/101/msg/"+cmd.ToString(), hd, body)
}

// login logs a user in and returns the session.
func (s *server) login() string {
	if err := dbs.NewUserTestDB(s.db).Save(dbs.UserTestDBEntry{Email: "alice@fido.example", Name: "alice"}); err != nil {
		panic(err)
	}
	id, err := dbs.NewSessionDB(s.db).NewSessionEntry(dbs.SessionEntry{Email: "alice@fido.example", LoggedIn: true})
	if err != nil {
		panic(err)
	}
	return string(id)
}

func (s *server) loggedIn(id string) bool {
	rec := s.call("GET", "/api/user/loggedin", map[string]string{"Cookie": "session=" + id}, nil)
	return rec.Code == 200
}

var cmds = []fs.FdoCmd{20, 22, 30, 32, 60, 62, 64, 66, 68, 70}

func device() *vxf.Voucher {
	return vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1 + vx.Choose("entries", 2), Guid: fs.FdoGuid{0xf1, 7}})
}

// H_paths: each message is served at its path, by the component it is for.
func H_paths() {
	vx.Option("concrete-rand", 1)
	s := newServer()
	v := device()
	do := vxs.DOOn(s.db)
	do.Add(v)
	cmd := cmds[vx.Choose("message", len(cmds))]
	switch vx.Choose("request", 4) {
	case 0: // correct hellos
		switch cmd {
		case 20:
			vx.Assert(vxs.OK(s.msg(20, "", []byte{0x80}), "21"), "a TO0 hello is served")
		case 30:
			rv := vxs.RVOn(s.db)
			tok, n := rv.Hello0()
			vx.Assert(vxs.OK(rv.Post(22, &tok, vxf.Marshal(vxs.NewReg(v, n, 300).Message())), "23"), "a registration is accepted")
			vx.Assert(vxs.OK(s.msg(30, "", vxf.Marshal(fs.HelloRV30{Guid: v.H.OVGuid, EASigInfo: fs.SigInfo{SgType: v.DevSg}})), "31"), "a TO1 hello is served")
		case 60:
			rec := s.msg(60, "", vxf.Marshal(fs.HelloDevice60{MaxDeviceMessageSize: 1300, Guid: v.H.OVGuid, NonceTO2ProveOV: fs.FdoNonce{3}, KexSuiteName: fs.KEX_ECDH256, CipherSuiteName: fs.CIPHER_A128GCM, EASigInfo: fs.SigInfo{SgType: v.DevSg, Info: []byte{}}}))
			vx.Assert(vxs.OK(rec, "61"), "a TO2 hello is served")
		}
	case 1: // any short body
		tok := ""
		if vx.Bool("token") {
			tok = "Bearer " + s.login()
		}
		rec := s.msg(cmd, tok, vx.Bytes("body", vx.Bound("body bytes", 1, 2)))
		if cmd == 20 && rec.Code == 200 {
			vx.Assert(vxs.OK(rec, "21"), "a TO0 hello is served")
		} else {
			vxs.IsError(rec, cmd)
		}
	case 2: // another method
		m := []string{"GET", "PUT", "DELETE", "HEAD"}[vx.Choose("method", 4)]
		vxs.IsError(s.call(m, "/fdo/101/msg/"+cmd.ToString(), map[string]string{"Content-Type": "application/cbor"}, []byte{0x80}), cmd)
	case 3: // another type
		vxs.IsError(s.call("POST", "/fdo/101/msg/"+cmd.ToString(), map[string]string{"Content-Type": "application/json"}, []byte{0x80}), cmd)
	}
}

// H_tokens: a session token of one component is worth nothing to another.
func H_tokens() {
	vx.Option("concrete-rand", 1)
	s := newServer()
	v := device()
	do, rv := vxs.DOOn(s.db), vxs.RVOn(s.db)
	do.Add(v)
	user := s.login()
	tok0, n0 := rv.Hello0()
	vx.Assert(vxs.OK(rv.Post(22, &tok0, vxf.Marshal(vxs.NewReg(v, n0, 300).Message())), "23"), "a registration is accepted")
	var token string
	from := vx.Choose("token of", 4)
	n := fs.FdoNonce{9}
	switch from {
	case 0:
		token = "Bearer " + user
	case 1:
		token, n = rv.Hello0()
	case 2:
		token = rv.Session1(v.H.OVGuid, v.DevSg, n)
	case 3:
		d := do.At(v, []fs.FdoCmd{61, 63, 65, 67, 69}[vx.Choose("state", 5)], fs.CIPHER_A128GCM)
		token, n = d.Token, d.ProveDv
	}
	to := vx.Choose("message", 8)
	cmd := []fs.FdoCmd{22, 32, 62, 64, 66, 68, 70, 0}[to]
	switch { // its own component
	case from == 0 && to == 7, from == 1 && to == 0, from == 2 && to == 1, from == 3 && to >= 2 && to < 7:
		return
	}
	eat := fs.EATPayloadBase{EatNonce: n, EatUEID: fs.GenerateEatGuid(v.H.OVGuid)}
	before := vxs.Snap(s.db, false)
	var body []byte
	switch cmd {
	case 0:
		vx.Assert(!s.loggedIn(token[len("Bearer "):]), "a protocol session is no login")
		vx.Assert(vxs.Same(before, vxs.Snap(s.db, false)), "a foreign token changes nothing")
		return
	case 22:
		body = vxf.Marshal(vxs.NewReg(v, n, 300).Message())
	case 32, 64:
		c, err := fs.GenerateCoseSignature(vxf.Marshal(eat), fs.ProtectedHeader{}, fs.UnprotectedHeader{EUPHNonce: &n}, v.DevKey, v.DevSg)
		if err != nil {
			panic(err)
		}
		body = vxf.Marshal(*c)
	case 62:
		body = vxf.Marshal(fs.GetOVNextEntry62{})
	default:
		body = vx.Bytes("body", 2)
	}
	vxs.IsError(s.msg(cmd, token, body), cmd)
	vx.Assert(vxs.Same(before, vxs.Snap(s.db, false)), "a foreign token changes nothing")
}

// H_journey: a device is registered, redirected and onboarded by one server, and what else it does is not affected.
func H_journey() {
	vx.Option("concrete-rand", 2)
	v := device()
	s := newServer()
	vxs.DOOn(s.db).Add(v)
	user := s.login()
	defer vxm.Dir()()
	vxm.PutFile("d.pem", pem.EncodeToMemory(&pem.Block{Type: fs.CREDENTIAL_PEM_TYPE, Bytes: vxf.Marshal(vxs.Cred(v))}))
	// someone else is in the middle of an exchange
	o := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP384R1, N: 1, Guid: fs.FdoGuid{0xf1, 8}})
	od := vxs.DOOn(s.db)
	od.Add(o)
	var other *vxs.Dev
	cut := vx.Choose("message before which another device does something", 12)
	what := vx.Choose("what", 3)
	sent := 0
	vxs.Net(func(m vxs.Sent) (*http.Response, error) {
		sent++
		if sent-1 == cut {
			switch what {
			case 0:
				other = od.Hello60(o, fs.KEX_ECDH256, fs.CIPHER_A128GCM)
				other.Entries()
				other.Prove64()
			case 1:
				s.msg(m.Cmd, "Bearer "+user, m.Body)
				s.msg(m.Cmd, "", m.Body)
			case 2:
				vx.Assert(s.loggedIn(user), "a user stays logged in")
			}
		}
		rec := s.msg(m.Cmd, m.Token, m.Body)
		vx.Assert(rec.Code == 200, "the server accepts the messages of a correct exchange")
		return vxs.Reply(rec.Code, rec.H.Get("Authorization"), rec.Body), nil
	})
	c := to0.NewTo0Requestor(fs.SRVEntry{SrvURL: "http://one"}, v.DBEntry(), vxs.CtxFor("http://one"))
	ack, _, err := c.Hello20(testcom.NULL_TEST)
	vx.Assert(err == nil && ack != nil, "a voucher is registered")
	_, _, err = c.OwnerSign22(ack.NonceTO0Sign, testcom.NULL_TEST)
	vx.Assert(err == nil && sent == 2, "a voucher is registered")
	for _, cmd := range []string{"to1", "to2"} {
		os.Args = []string{"fdo", "iop", cmd, "http://one", "d.pem"}
		p, msg := vx.Try(fdomain.Main)
		vx.Assert(!p, "the device does not crash: "+msg)
	}
	vx.Assert(sent > 12, "a device is onboarded")
	vx.Assert(s.loggedIn(user), "a user stays logged in")
	if other != nil {
		other.Ready66()
		vx.Assert(vxs.OK(other.Info68(false, vxs.SIMs()), "69") && vxs.OK(other.Done70(), "71"), "another device is onboarded meanwhile")
	}
}
