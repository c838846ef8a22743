package main

import (
	"encoding/pem"
	"net/http"
	"os"
	"strings"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to1"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/to0"
	rvpkg "github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/fdomain"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

func guid(b byte) (g fs.FdoGuid) {
	for i := range g {
		g[i] = b + byte(i)
	}
	return
}

func nonce(name string) (n fs.FdoNonce) {
	copy(n[:], vx.Bytes(name, 16))
	return
}

func symGuid(name string) (g fs.FdoGuid) {
	copy(g[:], vx.Bytes(name, 16))
	return
}

// devSg are the key types of virtual devices.
var devSg = []fs.SgType{fs.StSECP256R1, fs.StSECP384R1}

type place struct {
	url  string
	dns  string
	ip   []byte
	port uint16
	prot fs.TransportProtocol
}

var places = []place{
	{"http://owner.example", "owner.example", nil, 80, fs.ProtHTTP},
	{"https://owner.example", "owner.example", nil, 443, fs.ProtHTTPS},
	{"http://10.1.2.3:8043", "", []byte{10, 1, 2, 3}, 8043, fs.ProtHTTP},
	{"https://[2001:db8::7]:65535/x", "", []byte{0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7}, 65535, fs.ProtHTTPS},
	{"https://a.b:1", "a.b", nil, 1, fs.ProtHTTPS},
}

func equalVoucher(a, b fs.OwnershipVoucher) bool { return vx.EqBytes(vxf.Marshal(a), vxf.Marshal(b)) }

// H_to0: the owner client registers what it was given, and the rendezvous server takes it.
func H_to0() {
	vx.Option("concrete-rand", 2)
	v := vxf.Build(vxf.Opt{DevSg: devSg[vx.Choose("device key", 2)], Sg: vxf.SgTypes[vx.Choose("owner key", 4)], N: 1 + vx.Choose("entries", vx.Bound("entries", 2, 3)), Guid: symGuid("guid")})
	w := places[vx.Choose("service", len(places))]
	rv := vxs.NewRV()
	real := vx.Bool("real server")
	n := nonce("nonce")
	var token string
	cmds := 0
	vxs.Net(func(m vxs.Sent) (*http.Response, error) {
		cmds++
		vx.Assert(m.Ct == "application/cbor", "a message is sent as CBOR")
		if m.Cmd == 20 {
			vx.Assert(cmds == 1, "one hello is sent")
			vx.Assert(m.Url == "http://rv/fdo/101/msg/20", "the hello is sent to its path")
			vx.Assert(vx.EqBytes(m.Body, []byte{0x80}), "the hello is empty")
			if real {
				rec := rv.Answer(m)
				token = rec.H.Get("Authorization")
				return vxs.Reply(rec.Code, token, rec.Body), nil
			}
			token = "Bearer 1"
			return vxs.Reply(200, token, vxf.Marshal(fs.HelloAck21{NonceTO0Sign: n})), nil
		}
		vx.Assert(cmds == 2, "one registration is sent")
		vx.Assert(vx.And(m.Url == "http://rv/fdo/101/msg/22", m.Token == token), "the registration is sent to its path with the session's token")
		var o fs.OwnerSign22
		var d fs.To0d
		var p fs.To1dBlobPayload
		vx.Assert(fs.CborCust.Unmarshal(m.Body, &o) == nil, "the registration decodes")
		vx.Assert(fs.CborCust.Unmarshal(o.To0d, &d) == nil, "the registered data decodes")
		vx.Assert(d.NonceTO0Sign == n, "the registered data carries the server's nonce")
		vx.Assert(equalVoucher(d.OwnershipVoucher, v.V), "the registered data carries the voucher as it is")
		vx.Assert(d.WaitSeconds == to0.ServerWaitSeconds, "the registered data asks for the wait time")
		vx.Assert(fs.VerifyCoseSignature(o.To1d, v.OwnerPub[len(v.OwnerPub)-1]) == nil, "the blob is signed with the owner's key")
		vx.Assert(fs.CborCust.Unmarshal(o.To1d.Payload, &p) == nil, "the blob decodes")
		vx.Assert(vx.And(p.To1dTo0dHash.Type == v.HashAlg, vx.EqBytes(p.To1dTo0dHash.Hash, vxf.Hash(o.To0d, v.HashAlg).Hash)), "the blob carries the hash of the registered data")
		vx.Assert(len(p.To1dRV) == 1, "the blob carries the service's address")
		a := p.To1dRV[0]
		vx.Assert(vx.And(a.RVPort == w.port, a.RVProtocol == w.prot), "the blob carries the service's port and protocol")
		if w.ip != nil {
			vx.Assert(a.RVDNS == nil && a.RVIP != nil && vx.EqBytes([]byte(*a.RVIP), w.ip), "the blob carries the service's IP address")
		} else {
			vx.Assert(a.RVIP == nil && a.RVDNS != nil && *a.RVDNS == w.dns, "the blob carries the service's name")
		}
		if real {
			rec := rv.Answer(m)
			vx.Assert(rec.Code == 200, "the rendezvous server accepts the registration")
			db := rvpkg.NewOwnerSignDB(rv.DB)
			e, err := db.Get(v.H.OVGuid)
			vx.Assert(err == nil && vx.EqBytes(vxf.Marshal(e.To1d), vxf.Marshal(o.To1d)), "the rendezvous server stores the blob")
			return vxs.Reply(rec.Code, rec.H.Get("Authorization"), rec.Body), nil
		}
		return vxs.Reply(200, token, vxf.Marshal(fs.AcceptOwner23{WaitSeconds: 77})), nil
	})
	c := to0.NewTo0Requestor(fs.SRVEntry{SrvURL: "http://rv"}, v.DBEntry(), vxs.CtxFor(w.url))
	ack, _, err := c.Hello20(testcom.NULL_TEST)
	vx.Assert(err == nil && ack != nil, "a correct answer to a hello is accepted")
	if real {
		n = ack.NonceTO0Sign
	} else {
		vx.Assert(ack.NonceTO0Sign == n, "the server's nonce is returned")
	}
	acc, _, err := c.OwnerSign22(ack.NonceTO0Sign, testcom.NULL_TEST)
	vx.Assert(err == nil && acc != nil, "a correct answer to a registration is accepted")
	if real {
		vx.Assert(acc.WaitSeconds <= to0.ServerWaitSeconds, "the server grants at most the wait time asked for")
	} else {
		vx.Assert(acc.WaitSeconds == 77, "the granted wait time is returned")
	}
	vx.Assert(cmds == 2, "a registration is sent")
}

// H_to1: the device client proves itself with what it was given, and the rendezvous server believes it.
func H_to1() {
	vx.Option("concrete-rand", 2)
	v := vxf.Build(vxf.Opt{DevSg: devSg[vx.Choose("device key", 2)], Sg: vxf.SgTypes[vx.Choose("owner key", vx.Bound("owner key types", 2, 4))], N: 1, Guid: symGuid("guid")})
	real := vx.Bool("real server")
	rv := vxs.NewRV()
	tok, n0 := rv.Hello0()
	reg := vxs.NewReg(v, n0, 3600).Message()
	vx.Assert(vxs.OK(rv.Post(22, &tok, vxf.Marshal(reg)), "23"), "a correct registration is accepted")
	n := nonce("nonce")
	info := vx.Bytes("signature info", vx.Choose("signature info length", 2)*2)
	vx.Assume(!real || len(info) == 0)
	token := "Bearer 1"
	cmds := 0
	vxs.Net(func(m vxs.Sent) (*http.Response, error) {
		cmds++
		vx.Assert(m.Ct == "application/cbor", "a message is sent as CBOR")
		if m.Cmd == 30 {
			vx.Assert(cmds == 1 && m.Url == "http://rv/fdo/101/msg/30", "one hello is sent to its path")
			var h fs.HelloRV30
			vx.Assert(fs.CborCust.Unmarshal(m.Body, &h) == nil, "the hello decodes")
			vx.Assert(vx.And(h.Guid == v.H.OVGuid, vx.And(h.EASigInfo.SgType == v.DevSg, vx.EqBytes(h.EASigInfo.Info, info))), "the hello names the device and its key type")
			if real {
				rec := rv.Answer(m)
				token = rec.H.Get("Authorization")
				return vxs.Reply(rec.Code, token, rec.Body), nil
			}
			return vxs.Reply(200, token, vxf.Marshal(fs.HelloRVAck31{NonceTO1Proof: n, EBSigInfo: h.EASigInfo})), nil
		}
		vx.Assert(cmds == 2 && m.Url == "http://rv/fdo/101/msg/32", "one proof is sent to its path")
		vx.Assert(m.Token == token, "the proof is sent with the session's token")
		var s fs.CoseSignature
		var p fs.EATPayloadBase
		vx.Assert(fs.CborCust.Unmarshal(m.Body, &s) == nil, "the proof decodes")
		vx.Assert(fs.VerifyCoseSignature(s, vxf.Encode(v.DevKey, v.DevSg, fs.X509)) == nil, "the proof is signed with the device's key")
		vx.Assert(fs.CborCust.Unmarshal(s.Payload, &p) == nil, "the proof decodes")
		vx.Assert(p.EatNonce == n, "the proof carries the server's nonce")
		vx.Assert(vx.EqBytes(p.EatUEID[:], append([]byte{1}, v.H.OVGuid[:]...)), "the proof names the device")
		if real {
			rec := rv.Answer(m)
			vx.Assert(rec.Code == 200, "the rendezvous server accepts the proof")
			return vxs.Reply(rec.Code, rec.H.Get("Authorization"), rec.Body), nil
		}
		return vxs.Reply(200, token, vxf.Marshal(reg.To1d)), nil
	})
	cred := vxs.Cred(v)
	cred.DCSigInfo.Info = info
	c := to1.NewTo1Requestor(fs.SRVEntry{SrvURL: "http://rv"}, cred)
	ack, _, err := c.HelloRV30(testcom.NULL_TEST)
	vx.Assert(err == nil && ack != nil, "a correct answer to a hello is accepted")
	if real {
		n = ack.NonceTO1Proof
	} else {
		vx.Assert(vx.And(ack.NonceTO1Proof == n, ack.EBSigInfo.SgType == v.DevSg), "the server's answer is returned")
	}
	b, _, err := c.ProveToRV32(*ack, testcom.NULL_TEST)
	vx.Assert(err == nil && b != nil, "a correct answer to a proof is accepted")
	vx.Assert(vx.EqBytes(vxf.Marshal(*b), vxf.Marshal(reg.To1d)), "the owner's blob is returned as it is")
	vx.Assert(cmds == 2, "a proof is sent")
}

type party struct {
	v    *vxf.Voucher
	cmd  fs.FdoCmd
	good []byte
}

func newParty() *party {
	p := &party{v: vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: guid(1)})}
	p.cmd = []fs.FdoCmd{20, 22, 30, 32}[vx.Choose("message", 4)]
	switch p.cmd {
	case 20:
		p.good = vxf.Marshal(fs.HelloAck21{NonceTO0Sign: fs.FdoNonce(guid(9))})
	case 22:
		p.good = vxf.Marshal(fs.AcceptOwner23{WaitSeconds: 77})
	case 30:
		p.good = vxf.Marshal(fs.HelloRVAck31{NonceTO1Proof: fs.FdoNonce(guid(9)), EBSigInfo: fs.SigInfo{SgType: p.v.DevSg, Info: []byte{}}})
	case 32:
		p.good = vxf.Marshal(vxs.NewReg(p.v, fs.FdoNonce(guid(9)), 3600).Message().To1d)
	}
	return p
}

// send sends the message and reports whether the answer was accepted.
func (p *party) send() (ok bool) {
	var err error
	pan, msg := vx.Try(func() {
		c0 := to0.NewTo0Requestor(fs.SRVEntry{SrvURL: "http://rv"}, p.v.DBEntry(), vxs.CtxFor("http://do"))
		c1 := to1.NewTo1Requestor(fs.SRVEntry{SrvURL: "http://rv"}, vxs.Cred(p.v))
		var got bool
		switch p.cmd {
		case 20:
			r, _, e := c0.Hello20(testcom.NULL_TEST)
			err, got = e, r != nil
		case 22:
			r, _, e := c0.OwnerSign22(fs.FdoNonce(guid(9)), testcom.NULL_TEST)
			err, got = e, r != nil
		case 30:
			r, _, e := c1.HelloRV30(testcom.NULL_TEST)
			err, got = e, r != nil
		case 32:
			r, _, e := c1.ProveToRV32(fs.HelloRVAck31{NonceTO1Proof: fs.FdoNonce(guid(9)), EBSigInfo: fs.SigInfo{SgType: p.v.DevSg}}, testcom.NULL_TEST)
			err, got = e, r != nil
		}
		vx.Assert(got == (err == nil), "an answer or an error is returned")
	})
	vx.Assert(!pan, "no answer crashes the client: "+msg)
	return err == nil
}

// H_answer: only a successful answer that is the expected message is accepted.
func H_answer() {
	vx.Option("concrete-rand", 2)
	p := newParty()
	fault := vx.Choose("deviation", 6)
	status := 200
	if fault == 1 {
		status = []int{201, 204, 300, 400, 404, 500, 503}[vx.Choose("status", 7)]
	}
	vxs.Net(func(m vxs.Sent) (*http.Response, error) {
		body := p.good
		switch fault {
		case 2, 3: // an error
			if fault == 3 {
				status = 500
			}
			body = vxf.Marshal(fs.FdoError{EMErrorCode: 100, EMPrevMsgID: m.Cmd, EMErrorStr: "no", EMErrorTs: 1})
		case 4:
			return nil, vxs.ErrNet
		case 5: // another message
			body = [][]byte{{}, {0x80}, {0xf6}, {0xa0}, vxf.Marshal([]any{fs.FdoNonce(guid(1)), uint(1), "x", true})}[vx.Choose("body", 5)]
		}
		return vxs.Reply(status, "Bearer t", body), nil
	})
	ok := p.send()
	vx.Assert(ok == (fault == 0), "only a successful answer that is the expected message is accepted")
}

// H_any: no answer crashes a client.
func H_any() {
	vx.Option("concrete-rand", 2)
	p := newParty()
	body := vx.Bytes("body", vx.Choose("length", vx.Bound("answer bytes", 2, 3)+1))
	for _, b := range body {
		vx.Assume(b>>5 != 3 && b>>5 != 6) // no text, no tags
	}
	status := []int{200, 500}[vx.Choose("status", 2)]
	vxs.Net(func(m vxs.Sent) (*http.Response, error) { return vxs.Reply(status, "Bearer t", body), nil })
	ok := p.send()
	vx.Assert(!ok || status == 200, "only a successful answer is accepted")
	vx.Assert(!ok || len(body) > 0, "an answer without a message is refused")
}

// H_mangled: no answer that is nearly right crashes a client.
func H_mangled() {
	vx.Option("concrete-rand", 2)
	p := newParty()
	l := vxf.Items(p.good)
	n := len(l)
	if n > 16 {
		n = 16
	}
	it := l[vx.Choose("item", n)]
	body := append([]byte{}, p.good[:it.From]...)
	if !vx.Bool("cut") {
		x := vx.Byte("replacement")
		vx.Assume(vx.Or(vx.Or(x < 24, vx.And(x >= 32, x < 56)), vx.Or(vx.Or(x == 0x40, x == 0x60), vx.Or(vx.Or(x == 0x80, x == 0xa0), vx.And(x >= 0xf4, x <= 0xf7)))))
		body = append(append(body, x), p.good[it.To:]...)
	}
	vxs.Net(func(m vxs.Sent) (*http.Response, error) { return vxs.Reply(200, "Bearer t", body), nil })
	p.send()
}

// H_command: the virtual device's TO1 command ends without crashing, whatever address the blob gives.
func H_command() {
	vx.Option("concrete-rand", 2)
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: guid(1)})
	defer vxm.Dir()()
	vxm.PutFile("d.pem", pem.EncodeToMemory(&pem.Block{Type: fs.CREDENTIAL_PEM_TYPE, Bytes: vxf.Marshal(vxs.Cred(v))}))
	reg := vxs.NewReg(v, fs.FdoNonce(guid(9)), 3600)
	switch vx.Choose("addresses", 4) {
	case 1:
		reg.Addrs = []fs.RVTO2AddrEntry{}
	case 2:
		reg.Addrs[0].RVDNS = nil
	case 3:
		reg.Addrs = append(reg.Addrs, reg.Addrs[0])
	}
	to1d := reg.Message().To1d
	if vx.Bool("no payload") {
		to1d.Payload = []byte{}
	}
	last := fs.FdoCmd(0)
	vxs.Net(func(m vxs.Sent) (*http.Response, error) {
		last = m.Cmd
		if m.Cmd == 30 {
			return vxs.Reply(200, "Bearer t", vxf.Marshal(fs.HelloRVAck31{NonceTO1Proof: fs.FdoNonce(guid(9)), EBSigInfo: fs.SigInfo{SgType: v.DevSg, Info: []byte{}}})), nil
		}
		return vxs.Reply(200, "Bearer t", vxf.Marshal(to1d)), nil
	})
	os.Args = []string{"fdo", "iop", "to1", "http://rv", "d.pem"}
	p, msg := vx.Try(fdomain.Main)
	// a fatal error ends the command with its message
	vx.Assert(!p || !strings.HasPrefix(msg, "runtime error"), "the device does not crash: "+msg)
	vx.Assert(last == 32, "the device proves itself")
}
