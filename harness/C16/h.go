package main

import (
	"bytes"
	"crypto/elliptic"
	"errors"
	"io"
	"net/http"

	"github.com/dgraph-io/badger/v4"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/to2"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	tdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/listener"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

var guid = fs.FdoGuid{0xa0, 1}

func voucher(n int) *vxf.Voucher {
	vx.Option("concrete-rand", 1)
	return vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: n, Guid: guid, Rv: vxf.SomeRv(), Secret: []byte("0123456789abcdef")})
}

// world is both servers with a session at every point of every protocol.
type world struct {
	v   *vxf.Voucher
	rv  *vxs.RV
	do  *vxs.DO
	dev *vxs.Dev
	tok string
	n   fs.FdoNonce
}

var cmds = []fs.FdoCmd{20, 22, 30, 32, 60, 62, 64, 66, 68, 70}

// at is a world in which the message is due.
func at(cmd fs.FdoCmd, v *vxf.Voucher) *world {
	w := &world{v: v}
	switch {
	case cmd < 40:
		w.rv = vxs.NewRV()
		w.tok, w.n = w.rv.Hello0()
		if cmd >= 30 {
			vx.Assert(vxs.OK(w.rv.Post(22, &w.tok, vxf.Marshal(vxs.NewReg(v, w.n, 60).Message())), "23"), "a correct registration is accepted")
		}
		if cmd == 32 {
			w.tok, w.n = w.rv.Hello1(guid, v.DevSg)
		}
	case cmd == 60:
		w.do = vxs.NewDO()
		w.do.Add(v)
	case cmd == 62 || cmd == 64:
		w.do = vxs.NewDO()
		w.do.Add(v)
		w.dev = w.do.Hello60(v, fs.KEX_ECDH256, fs.CIPHER_A128GCM)
		if cmd == 64 {
			w.dev.Entries()
			w.dev.Exchange()
		}
		w.tok = w.dev.Token
	default:
		w.do = vxs.NewDO()
		w.do.Add(v)
		w.dev = w.do.At(v, map[fs.FdoCmd]fs.FdoCmd{66: 65, 68: 67, 70: 69}[cmd], fs.CIPHER_A128GCM)
		w.tok = w.dev.Token
	}
	return w
}

func (w *world) post(cmd fs.FdoCmd, body []byte) *vxm.Rec {
	var rec *vxm.Rec
	if w.rv != nil {
		rec = w.rv.Post(cmd, &w.tok, body)
	} else {
		rec = w.do.Post(cmd, &w.tok, body)
	}
	answered(rec, cmd)
	return rec
}

// answered is the claim that a request was answered, with a success or with an FDO error.
func answered(rec *vxm.Rec, cmd fs.FdoCmd) {
	vx.Assert(rec.Code != 0 && rec.Writes == 1, "every request is answered once")
	if rec.Code != 200 {
		vxs.IsError(rec, cmd)
	}
}

func proof(v *vxf.Voucher, p []byte) []byte {
	s, err := fs.GenerateCoseSignature(p, fs.ProtectedHeader{}, fs.UnprotectedHeader{}, v.DevKey, v.DevSg)
	vx.Assert(err == nil, "a proof is signed")
	return vxf.Marshal(*s)
}

// message is the correct message and, where it has one, what it protects.
func (w *world) message(cmd fs.FdoCmd) (m []byte) {
	switch cmd {
	case 20:
		return []byte{0x80}
	case 22:
		return vxf.Marshal(vxs.NewReg(w.v, w.n, 60).Message())
	case 30:
		return vxf.Marshal(fs.HelloRV30{Guid: guid, EASigInfo: fs.SigInfo{SgType: w.v.DevSg, Info: []byte{}}})
	case 32:
		return proof(w.v, vxf.Marshal(fs.EATPayloadBase{EatNonce: w.n, EatUEID: fs.GenerateEatGuid(guid)}))
	case 60:
		return vxf.Marshal(fs.HelloDevice60{MaxDeviceMessageSize: 1300, Guid: guid, KexSuiteName: fs.KEX_ECDH256, CipherSuiteName: fs.CIPHER_A128GCM, EASigInfo: fs.SigInfo{SgType: w.v.DevSg, Info: []byte{}}})
	case 62:
		return vxf.Marshal(fs.GetOVNextEntry62{GetOVNextEntry: 0})
	case 64:
		return vxf.Marshal(w.dev.Sign(w.dev.EAT(), w.v.DevKey, w.v.DevSg))
	}
	return w.dev.Enc(w.plain(cmd))
}

func (w *world) plain(cmd fs.FdoCmd) []byte {
	switch cmd {
	case 66:
		sz := uint16(1300)
		return vxf.Marshal(fs.DeviceServiceInfoReady66{ReplacementHMac: &fs.HashOrHmac{Type: 5, Hash: []byte{1}}, MaxOwnerServiceInfoSz: &sz})
	case 68:
		return vxf.Marshal(fs.DeviceServiceInfo68{ServiceInfo: vxs.SIMs()})
	}
	return vxf.Marshal(fs.Done70{NonceTO2ProveDv: w.dev.ProveDv})
}

// fields is the number of elements of each message, tagged ones aside.
var fields = map[fs.FdoCmd]byte{20: 0, 22: 2, 30: 2, 60: 6, 62: 1, 66: 2, 68: 2, 70: 1}

// never reports whether b can not be the encoding of the message, however leniently read.
func never(cmd fs.FdoCmd, b []byte) bool {
	if len(b) == 0 {
		return true
	}
	n, ok := fields[cmd]
	if !ok { // a tag
		return b[0]>>5 != 6
	}
	m := b[0] >> 5
	if m == 4 && b[0]&31 < 24 {
		return b[0]&31 != n || len(b) == 1 && n > 0
	}
	return m != 4 && m != 6
}

// Any few bytes as a message.
func H_bytes() {
	cmd := cmds[vx.Choose("message", len(cmds))]
	w := at(cmd, voucher(1))
	b := vx.Bytes("body", vx.Choose("length", vx.Bound("body bytes + 1", 3, 4)))
	bad := never(cmd, b)
	rec := w.post(cmd, b)
	if bad || cmd >= 64 && len(b) < 16 {
		vx.Assert(rec.Code >= 400, "a body that is no message is answered with an FDO error")
	}
}

// Any few bytes where a protected message should be, protected.
func H_inner_bytes() {
	cmd := []fs.FdoCmd{22, 122, 32, 64, 66, 68, 70}[vx.Choose("message", 7)]
	w := at(cmd%100, voucher(1))
	b := vx.Bytes("content", vx.Choose("length", vx.Bound("content bytes + 1", 2, 3)))
	bad := len(b) == 0 || b[0]>>5 != 4 && b[0]>>5 != 6
	if cmd >= 66 && cmd <= 70 {
		bad = never(cmd, b)
	}
	rec := w.post(cmd%100, w.protect(cmd, b))
	if cmd == 32 || cmd == 64 { // attestation payloads are maps
		return
	}
	if bad {
		vx.Assert(rec.Code >= 400, "a body that is no message is answered with an FDO error")
	}
}

// protect is the message with b as its protected content; 122 is the redirect blob of message 22.
func (w *world) protect(cmd fs.FdoCmd, b []byte) []byte {
	switch cmd {
	case 22, 122:
		r := vxs.NewReg(w.v, w.n, 60)
		m := r.Message()
		if cmd == 22 {
			m.To0d = b
			b = vxf.Marshal(fs.To1dBlobPayload{To1dRV: r.Addrs, To1dTo0dHash: vxf.Hash(b, w.v.HashAlg)})
		}
		s, err := fs.GenerateCoseSignature(b, fs.ProtectedHeader{}, fs.UnprotectedHeader{}, w.v.OwnerKey(), w.v.Sg)
		vx.Assert(err == nil, "a blob is signed")
		m.To1d = *s
		return vxf.Marshal(m)
	case 32:
		return proof(w.v, b)
	case 64:
		s, err := fs.GenerateCoseSignature(b, fs.ProtectedHeader{}, fs.UnprotectedHeader{EUPHNonce: &w.dev.Setup}, w.v.DevKey, w.v.DevSg)
		vx.Assert(err == nil, "a proof is signed")
		return vxf.Marshal(*s)
	}
	return w.dev.Enc(b)
}

// mutate replaces one data item by a few bytes of any value.
func mutate(b []byte, depth, size int) []byte {
	var l []vxf.Item
	for _, it := range vxf.Items(b) {
		if it.Depth <= depth {
			l = append(l, it)
		}
	}
	vx.Assert(len(l) > 0, "a message is CBOR")
	it := l[vx.Choose("item", len(l))]
	r := append([]byte{}, b[:it.From]...)
	n := vx.Bytes("item bytes", vx.Choose("item length", size+1))
	for _, c := range n {
		vx.Assume(c != 0xc0 && c != 0xc1) // tags of times
	}
	r = append(r, n...)
	return append(r, b[it.To:]...)
}

// A correct message, one of its items replaced; C09 has the wrappers of the encrypted ones.
func H_items() {
	cmd := []fs.FdoCmd{22, 30, 32, 60, 62, 64}[vx.Choose("message", 6)]
	w := at(cmd, voucher(1))
	if cmd == 64 { // a key exchange of known bytes
		w.dev.XB = &fs.KeXParams{XAKeyExchange: generator()}
		w.dev.Setup = fs.FdoNonce{1, 2, 3}
	}
	w.post(cmd, mutate(w.message(cmd), 9, vx.Bound("bytes in place of an item", 1, 2)))
	vx.Reach("answered")
	vx.Expect("answered")
}

// A correct message, one item of its protected content replaced before it was protected.
func H_inner_items() {
	cmd := []fs.FdoCmd{22, 122, 32, 64, 66, 68, 70}[vx.Choose("message", 7)]
	w := at(cmd%100, voucher(1))
	var b []byte
	switch cmd {
	case 22:
		b = vxf.Marshal(vxs.NewReg(w.v, w.n, 60).To0d)
	case 122:
		r := vxs.NewReg(w.v, w.n, 60)
		ip := fs.FdoIPAddress{1, 2, 3, 4}
		r.Addrs = append(r.Addrs, fs.RVTO2AddrEntry{RVIP: &ip, RVPort: 80, RVProtocol: fs.ProtHTTP})
		b = vxf.Marshal(fs.To1dBlobPayload{To1dRV: r.Addrs, To1dTo0dHash: vxf.Hash(vxf.Marshal(r.To0d), w.v.HashAlg)})
	case 32:
		b = vxf.Marshal(fs.EATPayloadBase{EatNonce: w.n, EatUEID: fs.GenerateEatGuid(guid)})
	case 64:
		b = vxf.Marshal(w.dev.EAT())
	default:
		b = w.plain(cmd)
	}
	w.post(cmd%100, w.protect(cmd, mutate(b, vx.Bound("depth of the item", 1, 9), 1)))
	vx.Reach("answered")
	vx.Expect("answered")
}

// A registration whose voucher is made by a malicious owner, and the device's proof thereafter.
func H_vouchers() {
	v := voucher(0)
	s := vxs.NewRV()
	switch vx.Choose("part", 3) {
	case 0: // the header
		v.V.OVHeaderTag = mutate(v.V.OVHeaderTag, vx.Bound("depth of the item", 1, 9), 1)
		h, err := fs.GenerateFdoHmac(v.V.OVHeaderTag, v.HmacAlg, v.Secret)
		vx.Assert(err == nil, "a header is authenticated")
		v.V.OVHeaderHMac = h
		v.Extend()
	case 1: // the entry
		v.Extend()
		e := v.V.OVEntryArray[0]
		x, err := fs.GenerateCoseSignature(mutate(e.Payload, vx.Bound("depth of the item", 1, 9), 1), fs.ProtectedHeader{}, fs.UnprotectedHeader{}, v.Owner[0], v.Sg)
		vx.Assert(err == nil, "an entry is signed")
		v.V.OVEntryArray[0] = *x
	case 2: // the device certificates
		switch vx.Choose("chain", 4) {
		case 0:
			v.V.OVDevCertChain = nil
		case 1:
			v.V.OVDevCertChain = &[]fs.X509CertificateBytes{}
		case 2:
			v.V.OVDevCertChain = &[]fs.X509CertificateBytes{vx.Bytes("certificate", 2)}
		case 3:
			k, _ := vxf.Key(vxf.SgTypes[vx.Choose("certificate key", 4)])
			c := vxf.Chain(k)
			v.V.OVDevCertChain = &c
		}
		if vx.Bool("hashed") && v.V.OVDevCertChain != nil {
			h, err := fs.ComputeOVDevCertChainHash(*v.V.OVDevCertChain, v.HashAlg)
			vx.Assert(err == nil, "a chain is hashed")
			v.H.OVDevCertChainHash = &h
		} else {
			v.H.OVDevCertChainHash = nil
		}
		v.SetHeader()
		v.Extend()
	}
	w := &world{v: v, rv: s}
	w.tok, w.n = s.Hello0()
	rec := w.post(22, w.message(22))
	if rec.Code != 200 {
		vx.Reach("registration refused")
		vx.Expect("registration refused")
		return
	}
	vx.Reach("registered")
	vx.Expect("registered")
	rec = s.Post(30, nil, w.message(30))
	answered(rec, 30)
	if rec.Code != 200 {
		return
	}
	var ack fs.HelloRVAck31
	vx.Assert(fs.CborCust.Unmarshal(rec.Body, &ack) == nil, "a TO1 hello answer decodes")
	w.tok, w.n = rec.H.Get("Authorization"), ack.NonceTO1Proof
	w.post(32, w.message(32))
}

// Every signature type a device may announce, whatever key it has.
func H_signature_types() {
	v := voucher(1)
	sg := fs.SgType(int(vx.Int("signature type", -300, 100)))
	if vx.Choose("protocol", 2) == 0 {
		w := at(30, v)
		rec := w.post(30, vxf.Marshal(fs.HelloRV30{Guid: guid, EASigInfo: fs.SigInfo{SgType: sg, Info: vx.Bytes("info", vx.Choose("info length", 2))}}))
		if rec.Code != 200 {
			return
		}
		var ack fs.HelloRVAck31
		vx.Assert(fs.CborCust.Unmarshal(rec.Body, &ack) == nil, "a TO1 hello answer decodes")
		w.tok, w.n = rec.H.Get("Authorization"), ack.NonceTO1Proof
		w.post(32, w.message(32))
		return
	}
	w := at(60, v)
	kex := []fs.KexSuiteName{fs.KEX_ECDH256, fs.KEX_DHKEXid14, fs.KEX_ASYMKEX2048, "", "x"}[vx.Choose("key exchange", 5)]
	rec := w.post(60, vxf.Marshal(fs.HelloDevice60{MaxDeviceMessageSize: 1300, Guid: guid, KexSuiteName: kex, CipherSuiteName: fs.CIPHER_A128GCM, EASigInfo: fs.SigInfo{SgType: sg, Info: []byte{}}}))
	if rec.Code != 200 {
		return
	}
	d := &vxs.Dev{S: w.do, V: v, Kex: fs.KEX_ECDH256, Cipher: fs.CIPHER_A128GCM}
	d.Answer61(rec)
	w.dev, w.tok = d, d.Token
	w.post(62, w.message(62))
	if kex == fs.KEX_ASYMKEX2048 {
		d.Kex, d.Hdr.XAKeyExchange = fs.KEX_ECDH256, nil
		d.XB = &fs.KeXParams{XAKeyExchange: vx.Bytes("exchange", vx.Choose("exchange length", 3))}
	} else {
		d.Kex = kex
		d.Exchange()
	}
	w.post(64, w.message(64))
}

// Every cipher suite number a device may ask for.
func H_suites() {
	v := voucher(1)
	w := at(60, v)
	c := fs.CipherSuiteName([]int{0, 2, 3, 10, 30, 31, 32, 33, 34, -17760703, -17760704, -17760705, -17760706, -1}[vx.Choose("suite", 14)])
	rec := w.post(60, vxf.Marshal(fs.HelloDevice60{MaxDeviceMessageSize: vx.U16("size"), Guid: guid, KexSuiteName: fs.KEX_ECDH256, CipherSuiteName: c, EASigInfo: fs.SigInfo{SgType: v.DevSg, Info: []byte{}}}))
	if rec.Code != 200 {
		return
	}
	d := &vxs.Dev{S: w.do, V: v, Kex: fs.KEX_ECDH256, Cipher: fs.CIPHER_A128GCM}
	d.Answer61(rec)
	w.dev, w.tok = d, d.Token
	w.post(62, w.message(62))
	d.Exchange()
	rec = w.post(64, w.message(64))
	if rec.Code != 200 {
		w.post(66, vx.Bytes("body", 1))
		return
	}
	d.Cipher = c
	w.post(66, d.Enc(w.plain(66)))
	w.post(68, d.Enc(w.plain(68)))
	w.post(70, d.Enc(w.plain(70)))
}

type broken struct{ after []byte }

func (b *broken) Read(p []byte) (int, error) {
	if len(b.after) > 0 {
		n := copy(p, b.after)
		b.after = b.after[n:]
		return n, nil
	}
	return 0, errors.New("connection reset")
}

func (b *broken) Close() error { return nil }

// Headers, methods and connections that fail.
func H_headers() {
	cmd := cmds[vx.Choose("message", len(cmds))]
	w := at(cmd, voucher(1))
	m := w.message(cmd)
	h := map[string]string{"Content-Type": "application/cbor", "Authorization": w.tok}
	method := "POST"
	var body io.ReadCloser = io.NopCloser(bytes.NewReader(m))
	ok := false
	switch vx.Choose("problem", 5) {
	case 0:
		h["Content-Type"] = string(ascii(vx.Bytes("type", vx.Choose("type length", 3))))
	case 1:
		n := vx.Choose("token length", 11)
		b := append([]byte("Bearer abc")[:n:n], vx.Bytes("token", vx.Choose("more", 3))...)
		h["Authorization"] = string(b)
		ok = cmd%10 == 0 && (cmd == 20 || cmd == 30 || cmd == 60)
	case 2:
		delete(h, "Authorization")
		ok = cmd == 20 || cmd == 30 || cmd == 60
	case 3:
		method = []string{"GET", "PUT", "", "HEAD"}[vx.Choose("method", 4)]
	case 4:
		body = &broken{m[:vx.Choose("part", 2)*len(m)/2]}
	}
	req := vxm.NewReq(method, "/fdo/101/msg/"+cmd.ToString(), m, h)
	req.Body = body
	rec := vxm.NewRec()
	crashed, _ := vx.Try(func() { handler(w, cmd)(rec, req) })
	vx.Assert(!crashed, "a request does not crash the handler")
	answered(rec, cmd)
	vx.Assert(ok == (rec.Code == 200), "a request with bad headers or a broken body is answered with an FDO error")
}

func handler(w *world, cmd fs.FdoCmd) func(http.ResponseWriter, *http.Request) {
	if w.rv != nil {
		t0, t1 := rv.NewRvTo0(w.rv.DB, vxs.Ctx()), rv.NewRvTo1(w.rv.DB, vxs.Ctx())
		return map[fs.FdoCmd]func(http.ResponseWriter, *http.Request){20: t0.Handle20Hello, 22: t0.Handle22OwnerSign, 30: t1.Handle30HelloRV, 32: t1.Handle32ProveToRV}[cmd]
	}
	t := to2.NewDoTo2(w.do.DB, vxs.Ctx())
	return map[fs.FdoCmd]func(http.ResponseWriter, *http.Request){60: t.HelloDevice60, 62: t.GetOVNextEntry62, 64: t.ProveDevice64, 66: t.DeviceServiceInfoReady66, 68: t.DeviceServiceInfo68, 70: t.Done70}[cmd]
}

// A device whose conformance is being tested, wherever its test run stands.
func H_test_runs() {
	vx.Option("max-decisions", vx.Bound("decisions", 20, 24)) // random choices are made again until one differs
	cmd := []fs.FdoCmd{30, 32, 60, 62, 64, 66, 68, 70}[vx.Choose("message", 8)]
	v := voucher(1)
	w := at(cmd, v)
	l := listener.NewDevice_RequestListenerInst(v.DBEntry(), guid)
	run := &l.To2
	seq := []fs.FdoCmd{60, 62, 64, 66, 68, 70}
	if cmd < 40 {
		run = &l.To1
		seq = []fs.FdoCmd{30, 32}
	}
	m := w.message(cmd)
	if vx.Bool("started") {
		run.StartNewTestRun()
		pos := 0
		if vx.Bool("at the message") {
			for seq[pos] != cmd {
				pos++
			}
		}
		for _, c := range seq[1 : pos+1] {
			run.GetNextTestID()
			run.CompleteCmdAndSetNext(c)
		}
		tests := vx.Choose("tests done", len(run.Tests[run.ExpectedCmd])+1)
		for i := 0; i < tests; i++ {
			run.GetNextTestID()
			run.PushSuccess()
		}
		switch vx.Choose("then", 6) {
		case 1:
			run.CompleteTestRun()
		case 2:
			run.RemoveTestRun(run.CurrentTestRun.Uuid)
		case 3:
			m = nil
		case 4:
			m[len(m)-1] ^= 1
		case 5:
			m = []byte{0x80}
			if cmd >= 66 {
				m = w.dev.Enc(m)
			}
		}
	}
	db := w.db()
	vx.Assert(tdbs.NewListenerTestDB(db).Save(l) == nil, "a listener is stored")
	var rec *vxm.Rec
	if w.rv != nil {
		rec = w.rv.Post(cmd, &w.tok, m)
	} else {
		rec = w.do.Post(cmd, &w.tok, m)
	}
	vx.Assert(rec.Writes <= 1, "no request of a tested device is answered twice")
	vx.Reach("handled")
	vx.Expect("handled")
}

func (w *world) db() *badger.DB {
	if w.rv != nil {
		return w.rv.DB
	}
	return w.do.DB
}

func ascii(b []byte) []byte {
	for _, c := range b {
		vx.Assume(c < 0x80)
	}
	return b
}

// generator is the base point as a key exchange message.
func generator() []byte {
	p := elliptic.P256().Params()
	var b []byte
	for _, c := range [][]byte{p.Gx.Bytes(), p.Gy.Bytes(), []byte("0123456789abcdef")} {
		b = append(append(b, 0, byte(len(c))), c...)
	}
	return b
}
