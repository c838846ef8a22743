package main

import (
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

var suites = []fs.CipherSuiteName{fs.CIPHER_A128GCM, fs.CIPHER_COSE_AES128_CTR, fs.CIPHER_AES_CCM_64_128_128, fs.CIPHER_A256GCM, fs.CIPHER_AES_CCM_64_128_256, fs.CIPHER_AES_CCM_16_128_128, fs.CIPHER_AES_CCM_16_128_256}

func suite() fs.CipherSuiteName { return suites[vx.Choose("suite", vx.Bound("suites", 3, 7))] }

// point is a place in the protocol where an encrypted message is due.
type point struct{ last, cmd fs.FdoCmd }

var points = []point{{65, 66}, {67, 68}, {69, 68}, {69, 70}}

// at is a server with a session at one of them.
func at(p point, c fs.CipherSuiteName) (*vxs.DO, *vxs.Dev) {
	vx.Option("concrete-rand", 1)
	vx.Option("short-digests", 1)
	s := vxs.NewDO()
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: fs.FdoGuid{0xa0, 1}, Rv: vxf.SomeRv(), Secret: []byte("0123456789abcdef")})
	s.Add(v)
	d := s.At(v, p.last, c)
	vx.Assume(d.Key.ShSe[15] != 0)
	set(s, d, p)
	return s, d
}

func set(s *vxs.DO, d *vxs.Dev, p point) {
	e := s.Session(d.Token)
	e.OwnerSIMs = []fs.ServiceInfoKV{{ServiceInfoKey: "own:a", ServiceInfoVal: []byte{1}}, {ServiceInfoKey: "own:b", ServiceInfoVal: []byte{2}}}
	if p.last == 69 {
		e.DeviceSIMs, e.OwnerSIMsSendCounter = vxs.SIMs(), 1
	}
	if p.cmd == 70 {
		e.OwnerSIMsFinishedSending, e.OwnerSIMsSendCounter = true, 2
	}
	s.Put(d.Token, *e)
}

// message is what the device has to say there.
func message(d *vxs.Dev, p point) []byte {
	switch p.cmd {
	case 66:
		return vxf.Marshal(fs.DeviceServiceInfoReady66{})
	case 68:
		if p.last == 67 {
			return vxf.Marshal(fs.DeviceServiceInfo68{ServiceInfo: vxs.SIMs()})
		}
		return vxf.Marshal(fs.DeviceServiceInfo68{ServiceInfo: []fs.ServiceInfoKV{}})
	}
	return vxf.Marshal(fs.Done70{NonceTO2ProveDv: d.ProveDv})
}

// accepted is the claim that the message was accepted and answered under the session's key and suite.
func accepted(d *vxs.Dev, p point, rec *vxm.Rec) {
	vx.Assert(vxs.OK(rec, []string{"67", "69", "71"}[(p.cmd-66)/2]), "an authentic message is accepted")
	b := d.Dec(rec)
	switch p.cmd {
	case 66:
		var a fs.OwnerServiceInfoReady67
		vx.Assert(fs.CborCust.Unmarshal(b, &a) == nil, "the answer is a service info ready")
	case 68:
		var a fs.OwnerServiceInfo69
		vx.Assert(fs.CborCust.Unmarshal(b, &a) == nil, "the answer is service info")
	case 70:
		var a fs.Done271
		vx.Assert(fs.CborCust.Unmarshal(b, &a) == nil, "the answer is a done")
		vx.Assert(a.NonceTO2SetupDv == d.Setup, "the answer to done carries the device's setup nonce")
	}
}

func refused(s *vxs.DO, p point, rec *vxm.Rec, before []vxm.KV) {
	vxs.IsError(rec, p.cmd)
	vx.Assert(vxs.Same(before, vxs.Snap(s.DB, false)), "a message that is not authentic changes nothing")
}

// H_reply: the authentic message is accepted, and the answer is for the device alone.
func H_reply() {
	p := points[vx.Choose("point", len(points))]
	_, d := at(p, suites[vx.Choose("suite", len(suites))])
	rec := d.S.Post(p.cmd, &d.Token, d.Enc(message(d, p)))
	accepted(d, p, rec)
	k := d.Key
	k.ShSe = vx.Bytes("other secret", 16)
	vx.Assume(vx.And(k.ShSe[15] != 0, vx.Not(vx.EqBytes(k.ShSe, d.Key.ShSe))))
	_, err := fs.RemoveEncryptionWrapping(rec.Body, k, d.Cipher)
	vx.Assert(err != nil, "the answer does not open with another key")
}

// H_key: messages not made with the session's key and suite.
func H_key() {
	p := points[vx.Choose("point", len(points))]
	s, d := at(p, suite())
	m := message(d, p)
	var b []byte
	var err error
	switch vx.Choose("made with", 5) {
	case 0: // nothing
		b = m
	case 1: // another key
		k := fs.SessionKeyInfo{ShSe: vx.Bytes("other secret", 16), ContextRand: []byte{}}
		vx.Assume(vx.And(k.ShSe[15] != 0, vx.Not(vx.EqBytes(k.ShSe, d.Key.ShSe))))
		b, err = fs.AddEncryptionWrapping(m, k, d.Cipher)
	case 2: // the same secret in another context
		k := fs.SessionKeyInfo{ShSe: d.Key.ShSe, ContextRand: vx.Bytes("context", 2)}
		b, err = fs.AddEncryptionWrapping(m, k, d.Cipher)
	case 3: // no key
		b, err = fs.AddEncryptionWrapping(m, fs.SessionKeyInfo{}, d.Cipher)
	case 4: // another suite
		c := suites[vx.Choose("other suite", len(suites))]
		vx.Assume(c != d.Cipher)
		b, err = fs.AddEncryptionWrapping(m, d.Key, c)
	}
	vx.Assert(err == nil, "a message is wrapped")
	before := vxs.Snap(s.DB, false)
	refused(s, p, s.Post(p.cmd, &d.Token, b), before)
	accepted(d, p, s.Post(p.cmd, &d.Token, d.Enc(m)))
}

// other changes one byte.
func other(name string, b []byte) []byte {
	b = append([]byte{}, b...)
	x := vx.Byte(name)
	vx.Assume(x != 0)
	b[vx.Choose(name+" at", 3)*(len(b)-1)/2] ^= x
	return b
}

// H_tampered: messages made with the key and altered on the way.
func H_tampered() {
	p := points[vx.Choose("point", len(points))]
	s, d := at(p, suite())
	m := d.Enc(message(d, p))
	var o fs.ETMOuterBlock
	var e fs.EMB_ETMInnerBlock
	etm := d.Cipher == fs.CIPHER_COSE_AES128_CTR
	if etm {
		vx.Assert(fs.CborCust.Unmarshal(m, &o) == nil, "a wrapped message decodes")
		m = o.Payload
	}
	vx.Assert(fs.CborCust.Unmarshal(m, &e) == nil, "a wrapped message decodes")
	n := 5
	if etm {
		n = 8
	}
	switch vx.Choose("altered", n) {
	case 0:
		e.Ciphertext = other("ciphertext", e.Ciphertext)
	case 1:
		iv := other("iv", *e.Unprotected.AESIV)
		e.Unprotected.AESIV = &iv
	case 2:
		e.Unprotected.AESIV = nil
	case 3:
		e.Protected = vx.Bytes("protected", vx.Choose("protected length", 2))
	case 4:
		e.Ciphertext = e.Ciphertext[:vx.Choose("cut", 3)*len(e.Ciphertext)/3]
	case 5:
		o.Tag = other("tag", o.Tag)
	case 6:
		o.Tag = o.Tag[:vx.Choose("tag length", 3)*len(o.Tag)/3]
	case 7: // another MAC algorithm
		o.Protected = vxf.Marshal(fs.ProtectedHeader{Alg: fs.GetIntRef(6)})
	}
	m = vxf.Marshal(e)
	if etm {
		o.Payload = m
		m = vxf.Marshal(o)
	}
	before := vxs.Snap(s.DB, false)
	refused(s, p, s.Post(p.cmd, &d.Token, m), before)
	accepted(d, p, s.Post(p.cmd, &d.Token, d.Enc(message(d, p))))
}

// H_bytes: bodies that are not a wrapped message at all.
func H_bytes() {
	p := points[vx.Choose("point", len(points))]
	s, d := at(p, suite())
	b := vx.Bytes("body", vx.Choose("length", vx.Bound("body bytes + 1", 3, 3)))
	before := vxs.Snap(s.DB, false)
	refused(s, p, s.Post(p.cmd, &d.Token, b), before)
}

// H_sessions: what is authentic in one session is not in another, even of the same device.
func H_sessions() {
	p := points[vx.Choose("point", len(points))]
	s, d := at(p, suite())
	x := s.At(d.V, p.last, d.Cipher)
	set(s, x, p)
	vx.Assume(vx.And(x.Key.ShSe[15] != 0, vx.Not(vx.EqBytes(x.Key.ShSe, d.Key.ShSe))))
	m := x.Enc(message(x, p))
	before := vxs.Snap(s.DB, false)
	refused(s, p, s.Post(p.cmd, &d.Token, m), before)
	accepted(x, p, s.Post(p.cmd, &x.Token, m))
}

// H_done: done carries the nonce given to the device.
func H_done() {
	p := points[3]
	s, d := at(p, suite())
	var n fs.FdoNonce
	copy(n[:], vx.Bytes("nonce", 16))
	before := vxs.Snap(s.DB, false)
	m := vxf.Marshal(fs.Done70{NonceTO2ProveDv: n})
	same := vx.EqBytes(n[:], d.ProveDv[:])
	if vx.Bool("one element short") {
		m = []byte{0x80}
		same = false
	}
	rec := s.Post(70, &d.Token, d.Enc(m))
	if same {
		accepted(d, p, rec)
		return
	}
	refused(s, p, rec, before)
	accepted(d, p, s.Post(70, &d.Token, d.Enc(message(d, p))))
}
