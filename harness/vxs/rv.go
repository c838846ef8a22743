// Package vxs drives the protocol servers.
package vxs

import (
	"context"
	"net/http"
	"strings"

	"github.com/dgraph-io/badger/v4"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
)

// Ctx is a server context without interop logging.
func Ctx() context.Context {
	return context.WithValue(context.Background(), fs.CFG_ENV_INTEROP_ENABLED, false)
}

// RV is a rendezvous server.
type RV struct {
	DB  *badger.DB
	to0 rv.RvTo0
	to1 rv.RvTo1
}

func NewRV() *RV { return RVOn(vxm.OpenDB()) }

func RVOn(db *badger.DB) *RV { return RVCtx(db, Ctx()) }

// RVCtx is a rendezvous server with settings of its own.
func RVCtx(db *badger.DB, ctx context.Context) *RV {
	return &RV{DB: db, to0: rv.NewRvTo0(db, ctx), to1: rv.NewRvTo1(db, ctx)}
}

// Post sends a message; a nil token sends none.
func (s *RV) Post(cmd fs.FdoCmd, token *string, body []byte) *vxm.Rec {
	return s.PostAs(cmd, "application/cbor", token, body)
}

func (s *RV) PostAs(cmd fs.FdoCmd, ct string, token *string, body []byte) *vxm.Rec {
	var f func(http.ResponseWriter, *http.Request)
	switch cmd {
	case 20:
		f = s.to0.Handle20Hello
	case 22:
		f = s.to0.Handle22OwnerSign
	case 30:
		f = s.to1.Handle30HelloRV
	case 32:
		f = s.to1.Handle32ProveToRV
	default:
		panic("vxs: no such rendezvous message")
	}
	return do(f, cmd, ct, token, body)
}

func do(f func(http.ResponseWriter, *http.Request), cmd fs.FdoCmd, ct string, token *string, body []byte) *vxm.Rec {
	h := map[string]string{}
	if ct != "" {
		h["Content-Type"] = ct
	}
	if token != nil {
		h["Authorization"] = *token
	}
	rec := vxm.NewRec()
	req := vxm.NewReq("POST", "/fdo/101/msg/"+cmd.ToString(), body, h)
	p, _ := vx.Try(func() { f(rec, req) })
	vx.Assert(!p, "a request does not crash the handler")
	return rec
}

// IsError is the claim that rec is an FDO error that names its cause.
func IsError(rec *vxm.Rec, cmd fs.FdoCmd) {
	var e fs.FdoError
	err := fs.CborCust.Unmarshal(rec.Body, &e)
	vx.Assert(rec.Code >= 400 && rec.H.Get("Message-Type") == "255" && err == nil, "a refused request is answered with an FDO error")
	vx.Assert(rec.H.Get("Authorization") == "", "a refused request is given no session token")
	if err == nil {
		vx.Assert(e.EMPrevMsgID == cmd, "an FDO error names the message that caused it")
	}
}

// OK reports a success reply with the given message type.
func OK(rec *vxm.Rec, typ string) bool {
	if rec.Code != 200 {
		return false
	}
	vx.Assert(rec.H.Get("Message-Type") == typ, "a success reply has its message type")
	vx.Assert(rec.H.Get("Content-Type") == "application/cbor", "a success reply is CBOR")
	return true
}

// Snap is the content of a database, without sessions when others is true.
func Snap(db *badger.DB, others bool) []vxm.KV {
	var r []vxm.KV
	for _, e := range vxm.Dump(db) {
		if !others || !strings.HasPrefix(e.Key, "session-") {
			r = append(r, e)
		}
	}
	return r
}

func eq(a, b vxm.KV) bool { return vx.And(vx.EqStr(a.Key, b.Key), vx.EqStr(a.Val, b.Val)) }

// Same reports whether two snapshots are equal.
func Same(a, b []vxm.KV) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		same = vx.And(same, eq(a[i], b[i]))
	}
	return same
}

// Changed lists the records of b that are not in a.
func Changed(a, b []vxm.KV) []vxm.KV {
	var r []vxm.KV
	for _, x := range b {
		old := false
		for _, y := range a {
			old = vx.Or(old, eq(x, y))
		}
		if !old {
			r = append(r, x)
		}
	}
	return r
}

// Hello0 opens a TO0 session.
func (s *RV) Hello0() (token string, nonce fs.FdoNonce) {
	rec := s.Post(20, nil, []byte{0x80})
	vx.Assert(OK(rec, "21"), "a TO0 hello is accepted")
	var ack fs.HelloAck21
	vx.Assert(fs.CborCust.Unmarshal(rec.Body, &ack) == nil, "a TO0 hello answer decodes")
	return rec.H.Get("Authorization"), ack.NonceTO0Sign
}

// Hello1 opens a TO1 session.
func (s *RV) Hello1(g fs.FdoGuid, sg fs.SgType) (token string, nonce fs.FdoNonce) {
	rec := s.Post(30, nil, vxf.Marshal(fs.HelloRV30{Guid: g, EASigInfo: fs.SigInfo{SgType: sg}}))
	vx.Assert(OK(rec, "31"), "a TO1 hello for a registered GUID is accepted")
	var ack fs.HelloRVAck31
	vx.Assert(fs.CborCust.Unmarshal(rec.Body, &ack) == nil, "a TO1 hello answer decodes")
	return rec.H.Get("Authorization"), ack.NonceTO1Proof
}

// Reg is a TO0 registration in preparation.
type Reg struct {
	V      *vxf.Voucher
	To0d   fs.To0d
	Addrs  []fs.RVTO2AddrEntry
	Signer any
	Hash   *fs.HashOrHmac
}

// NewReg is a correct registration.
func NewReg(v *vxf.Voucher, nonce fs.FdoNonce, wait uint32) *Reg {
	dns := "owner.example"
	return &Reg{V: v, To0d: fs.To0d{OwnershipVoucher: v.V, WaitSeconds: wait, NonceTO0Sign: nonce},
		Addrs: []fs.RVTO2AddrEntry{{RVDNS: &dns, RVPort: 8043, RVProtocol: fs.ProtHTTPS}}, Signer: v.OwnerKey()}
}

// Message is the owner sign message.
func (r *Reg) Message() fs.OwnerSign22 {
	to0d := vxf.Marshal(r.To0d)
	h := vxf.Hash(to0d, r.V.HashAlg)
	if r.Hash != nil {
		h = *r.Hash
	}
	p := vxf.Marshal(fs.To1dBlobPayload{To1dRV: r.Addrs, To1dTo0dHash: h})
	s, err := fs.GenerateCoseSignature(p, fs.ProtectedHeader{}, fs.UnprotectedHeader{}, r.Signer, r.V.Sg)
	if err != nil {
		panic("vxs: " + err.Error())
	}
	return fs.OwnerSign22{To0d: to0d, To1d: *s}
}

// Session1 stores a TO1 session and returns its token.
func (s *RV) Session1(g fs.FdoGuid, sg fs.SgType, n fs.FdoNonce) string {
	db := rv.NewSessionDB(s.DB)
	id, err := db.NewSessionEntry(rv.SessionEntry{Protocol: fs.To1, NonceTO1Proof: n, Guid: g, EASigInfo: fs.SigInfo{SgType: sg}})
	if err != nil {
		panic("vxs: " + err.Error())
	}
	return "Bearer " + string(id)
}
