package main

import (
	"context"
	"errors"
	"io"
	"net/http"
	"strings"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
)

var cmds = []fs.FdoCmd{20, 22, 30, 32, 60, 62, 64, 66, 68, 70}

func isError(rec *vxm.Rec, code fs.FdoErrorCode, prev fs.FdoCmd, status int) {
	vx.Assert(rec.Code == status, "an error reply has the status chosen for it")
	vx.Assert(rec.H.Get("Message-Type") == "255", "an error reply has message type 255")
	vx.Assert(rec.H.Get("Content-Type") == "application/cbor", "an error reply is CBOR")
	vx.Assert(rec.H.Get("Authorization") == "", "an error reply carries no session token")
	vx.Assert(rec.Writes == 1, "an error reply has one body")
	var e fs.FdoError
	err := fs.CborCust.Unmarshal(rec.Body, &e)
	vx.Assert(err == nil, "an error reply body is an FDO error")
	if err == nil {
		vx.Assert(e.EMErrorCode == code, "an error reply carries its error code")
		vx.Assert(e.EMPrevMsgID == prev, "an error reply names the message that caused it")
	}
}

// Every error code, message id, text and non-success status.
func H_error() {
	rec := vxm.NewRec()
	code := fs.FdoErrorCode(vx.U16("code"))
	prev := fs.FdoCmd(vx.Byte("message"))
	status := vx.Int("status", 400, 599)
	tb := vx.Bytes("text", vx.Choose("text length", 4))
	for _, c := range tb {
		vx.Assume(c < 0x80) // the texts of the servers are ASCII
	}
	text := string(tb)
	fs.RespondFDOError(rec, vxm.NewReq("POST", "/", nil, nil), code, prev, text, status)
	isErrorSym(rec, code, prev, status, text)
}

func isErrorSym(rec *vxm.Rec, code fs.FdoErrorCode, prev fs.FdoCmd, status int, text string) {
	vx.Assert(rec.Code == status, "an error reply has the status chosen for it")
	vx.Assert(rec.H.Get("Message-Type") == "255", "an error reply has message type 255")
	vx.Assert(rec.H.Get("Content-Type") == "application/cbor", "an error reply is CBOR")
	vx.Assert(rec.H.Get("Authorization") == "", "an error reply carries no session token")
	var e fs.FdoError
	err := fs.CborCust.Unmarshal(rec.Body, &e)
	vx.Assert(err == nil, "an error reply body is an FDO error")
	if err == nil {
		vx.Assert(e.EMErrorCode == code, "an error reply carries its error code")
		vx.Assert(e.EMPrevMsgID == prev, "an error reply names the message that caused it")
		vx.Assert(vx.EqStr(e.EMErrorStr, text), "an error reply carries its text")
	}
}

// A bearer token is required and returned as sent.
func H_authorization() {
	n := vx.Bound("free authorization header bytes", 8, 10)
	hdr := string(vx.Bytes("header", vx.Choose("length", n+1)))
	if vx.Choose("prefix", 2) == 1 {
		hdr = "Bearer " + hdr
	}
	cmd := fs.FdoCmd(vx.Byte("message"))
	m := map[string]string{}
	if hdr != "" {
		m["Authorization"] = hdr
	}
	rec := vxm.NewRec()
	ok, tok, h := fs.ExtractAuthorizationHeader(rec, vxm.NewReq("POST", "/", nil, m), cmd)
	valid := false
	if len(hdr) >= 7 {
		valid = vx.EqStr(hdr[:7], "Bearer ")
		for i := 7; i < len(hdr); i++ {
			valid = vx.And(valid, hdr[i] != ' ')
		}
	}
	vx.Assert(ok == valid, "exactly a bearer token is accepted")
	if ok {
		vx.Assert(vx.EqStr(string(tok), hdr[7:]), "the token is the one sent")
		vx.Assert(vx.EqStr(h, hdr), "the header is the one sent")
		vx.Assert(rec.Code == 0 && len(rec.Body) == 0, "nothing is answered when the token is accepted")
	} else {
		vx.Assert(tok == nil, "no token is returned without a bearer token")
		isError(rec, fs.MESSAGE_BODY_ERROR, cmd, http.StatusUnauthorized)
	}
}

// Only POST with the CBOR content type passes.
func H_headers() {
	methods := []string{"POST", "GET", "PUT", "", "post", "DELETE"}
	mi := vx.Choose("method", len(methods))
	cmd := fs.FdoCmd(vx.Byte("message"))
	m := map[string]string{}
	ct := ""
	switch vx.Choose("content type", 4) {
	case 0:
		ct = "application/cbor"
	case 1:
		ct = string(vx.Bytes("content type", 16))
	case 2:
		ct = string(vx.Bytes("content type", 1+vx.Choose("content type length", 20)))
		if len(ct) > 1 && len(ct) <= 4 {
			vx.Assumption("content types of two to four bytes are ASCII")
			for i := 0; i < len(ct); i++ {
				vx.Assume(ct[i] < 0x80)
			}
		}
	}
	if ct != "" {
		m["Content-Type"] = ct
	}
	rec := vxm.NewRec()
	ok := fs.CheckHeaders(rec, vxm.NewReq(methods[mi], "/", nil, m), cmd)
	isCbor := vx.EqStr(ct, "application/cbor")
	vx.Assert(ok == vx.And(mi == 0, isCbor), "exactly a CBOR POST is accepted")
	if ok {
		vx.Assert(rec.Code == 0 && len(rec.Body) == 0, "nothing is answered when the request is accepted")
		return
	}
	vx.Assert(rec.Code == http.StatusMethodNotAllowed || rec.Code == http.StatusUnsupportedMediaType, "a refused request is answered with an error status")
	vx.Assert(vx.Implies(mi != 0, rec.Code == http.StatusMethodNotAllowed), "another method is not allowed")
	if len(ct) <= vx.Bound("content type bytes of decoded error replies", 1, 2) {
		isError(rec, fs.MESSAGE_BODY_ERROR, cmd, rec.Code)
	}
	vx.Assert(rec.H.Get("Message-Type") == "255", "an error reply has message type 255")
}

type broken struct{}

func (broken) Read([]byte) (int, error) { return 0, errors.New("broken body") }
func (broken) Close() error             { return nil }

// What the client sends is what a server sees, what the server answers is what the client returns.
func H_client_post() {
	cmd := cmds[vx.Choose("message", len(cmds))]
	body := vx.Bytes("body", vx.Choose("body length", 5))
	ans := vx.Bytes("answer", vx.Choose("answer length", 5))
	if vx.Choose("long", 2) == 1 { // a voucher of 255 entries takes some 100 kB
		vx.Assume(len(body) == 1 && len(ans) == 1)
		body = append(make([]byte, 150000), body...)
		ans = append(make([]byte, 150000), ans...)
	}
	status := vx.Int("status", 200, 599)
	urls := []string{"http://127.0.0.1:8080", "http://rv.example/", "https://rv.example:8443/base/"}
	want := []string{"http://127.0.0.1:8080/fdo/101/msg/", "http://rv.example/fdo/101/msg/", "https://rv.example:8443/base/fdo/101/msg/"}
	u := vx.Choose("url", len(urls))
	var authz *string
	if vx.Choose("token", 2) == 1 {
		s := "Bearer " + strings.Repeat("x", vx.Choose("long token", 2)*300) + string(vx.Bytes("token", 3))
		authz = &s
	}
	fail := vx.Choose("network", 3)
	sent := 0
	vxm.SetTransport(func(r *http.Request) (*http.Response, error) {
		sent++
		vx.Assert(r.Method == "POST", "messages are sent with POST")
		vx.Assert(r.URL.String() == want[u]+cmd.ToString(), "messages are sent to the FDO path of the message")
		vx.Assert(r.Header.Get("Content-Type") == "application/cbor", "messages are sent as CBOR")
		if authz != nil {
			vx.Assert(vx.EqStr(r.Header.Get("Authorization"), *authz), "the token is sent as given")
		} else {
			vx.Assert(r.Header.Get("Authorization") == "", "no token is sent when there is none")
		}
		b, err := io.ReadAll(r.Body)
		vx.Assert(err == nil && vx.EqBytes(b, body), "the body is sent as given")
		if fail == 1 {
			return nil, errors.New("connection refused")
		}
		rec := vxm.NewRec()
		rec.H.Set("Authorization", "Bearer abc")
		rec.Code = status
		rec.Body = ans
		resp := rec.Resp()
		if fail == 2 {
			resp.Body = broken{}
		}
		return resp, nil
	})
	b, a, s, err := fs.SendCborPost(fs.SRVEntry{SrvURL: urls[u]}, cmd, body, authz)
	vx.Assert(sent == 1, "one message is sent")
	vx.Assert((err == nil) == (fail == 0), "a failed exchange is an error, a completed one is not")
	if err == nil {
		vx.Assert(vx.EqBytes(b, ans), "the answer is returned as received")
		vx.Assert(a == "Bearer abc", "the session token is returned as received")
		vx.Assert(s == status, "the status is returned as received")
	}
}

func ctx() context.Context {
	return context.WithValue(context.Background(), fs.CFG_ENV_INTEROP_ENABLED, false)
}

var cborHdr = map[string]string{"Content-Type": "application/cbor"}

// A success reply of the TO0 hello.
func H_to0_hello() {
	db := vxm.OpenDB()
	h := rv.NewRvTo0(db, ctx())
	body := vx.Bytes("body", vx.Choose("body length", vx.Bound("hello bytes", 2, 3)+1))
	rec := vxm.NewRec()
	h.Handle20Hello(rec, vxm.NewReq("POST", "/fdo/101/msg/20", body, cborHdr))
	if rec.Code != 200 {
		isError(rec, fs.MESSAGE_BODY_ERROR, 20, http.StatusBadRequest)
		vx.Assert(len(vxm.Keys(db)) == 0, "a refused hello opens no session")
		return
	}
	vx.Assert(rec.H.Get("Message-Type") == "21", "a success reply has its message type")
	vx.Assert(rec.H.Get("Content-Type") == "application/cbor", "a success reply is CBOR")
	t := rec.H.Get("Authorization")
	vx.Assert(len(t) > 7 && t[:7] == "Bearer ", "a hello reply carries a bearer token")
	var ack fs.HelloAck21
	vx.Assert(fs.CborCust.Unmarshal(rec.Body, &ack) == nil, "a success reply body decodes")
	vx.Assert(len(vxm.Keys(db)) == 1 && vxm.Keys(db)[0] == "session-"+t[7:], "an accepted hello opens one session under its token")
}
