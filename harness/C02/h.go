package main

import (
	"time"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

func guid(name string) (g fs.FdoGuid) {
	copy(g[:], vx.Bytes(name, 16))
	return
}

// register stores a redirect for the voucher's device and returns it.
func register(s *vxs.RV, v *vxf.Voucher, port uint16) fs.CoseSignature {
	tok, nonce := s.Hello0()
	r := vxs.NewReg(v, nonce, 3600)
	r.Addrs[0].RVPort = port
	m := r.Message()
	vx.Assert(vxs.OK(s.Post(22, &tok, vxf.Marshal(m)), "23"), "a correct registration is accepted")
	return m.To1d
}

func device(dev, owner fs.SgType, name string) *vxf.Voucher {
	return vxf.Build(vxf.Opt{DevSg: dev, Sg: owner, N: 1, Guid: guid(name)})
}

// Proof is the attestation token of a device.
func proof(g fs.FdoGuid, nonce fs.FdoNonce, key any, sg fs.SgType) fs.CoseSignature {
	p := fs.EATPayloadBase{EatNonce: nonce}
	p.EatUEID[0] = 1
	copy(p.EatUEID[1:], g[:])
	s, err := fs.GenerateCoseSignature(vxf.Marshal(p), fs.ProtectedHeader{}, fs.UnprotectedHeader{}, key, sg)
	if err != nil {
		panic(err)
	}
	return *s
}

func released(rec *vxm.Rec, want fs.CoseSignature) {
	vx.Assert(vxs.OK(rec, "33"), "a correct proof is answered with the redirect")
	vx.Assert(vx.EqBytes(rec.Body, vxf.Marshal(want)), "the redirect returned is byte for byte the one registered for the GUID")
}

// The device that proves itself gets its own redirect, of the last registration, while it lasts.
func H_release() {
	s := vxs.NewRV()
	dev := vxf.SgTypes[vx.Choose("device key type", 2)]
	own := vxf.SgTypes[vx.Choose("owner key type", vx.Bound("owner key types", 2, 4))]
	v := device(dev, own, "guid")
	other := device(dev, own, "guid 2")
	vx.Assume(v.H.OVGuid != other.H.OVGuid)
	want := register(s, v, vx.U16("port"))
	again := vx.Choose("registered again", 2) == 1
	if again {
		v.Extend()
		want = register(s, v, vx.U16("port"))
	}
	wo := register(s, other, 1000)
	tok, nonce := s.Hello1(v.H.OVGuid, dev)
	named := v.H.OVGuid // whatever GUID the token names, the session's decides
	switch vx.Choose("GUID named by the token", 3) {
	case 1:
		named = other.H.OVGuid
	case 2:
		named = guid("named guid")
	}
	rec := s.Post(32, &tok, vxf.Marshal(proof(named, nonce, v.DevKey, dev)))
	if named != v.H.OVGuid && !vxs.OK(rec, "33") {
		vxs.IsError(rec, 32)
		return
	}
	released(rec, want)
	vx.Assert(rec.H.Get("Authorization") == tok, "the answer carries the session token")
	tok, nonce = s.Hello1(other.H.OVGuid, dev)
	released(s.Post(32, &tok, vxf.Marshal(proof(other.H.OVGuid, nonce, other.DevKey, dev))), wo)
}

// The hello is answered with the signature info received and a new session.
func H_hello() {
	s := vxs.NewRV()
	v := device(fs.StSECP256R1, fs.StSECP256R1, "guid")
	register(s, v, 8043)
	sg := fs.SgType(int(vx.U16("sg type")) - 300)
	info := vx.Bytes("info", vx.Choose("info length", 3))
	known := vx.Choose("guid", 2) == 0
	g := v.H.OVGuid
	if !known {
		g = guid("other guid")
		vx.Assume(g != v.H.OVGuid)
	}
	before := vxs.Snap(s.DB, false)
	rec := s.Post(30, nil, vxf.Marshal(fs.HelloRV30{Guid: g, EASigInfo: fs.SigInfo{SgType: sg, Info: info}}))
	valid := fs.SigInfo{SgType: sg}.IsValid()
	ok := vxs.OK(rec, "31")
	vx.Assert(ok == vx.And(valid, known), "exactly a hello with a known GUID and signature type is accepted")
	if !ok {
		vxs.IsError(rec, 30)
		vx.Assert(vxs.Same(before, vxs.Snap(s.DB, false)), "a refused hello changes nothing")
		var e fs.FdoError
		if fs.CborCust.Unmarshal(rec.Body, &e) == nil && valid {
			vx.Assert(e.EMErrorCode == fs.RESOURCE_NOT_FOUND, "a hello for an unknown GUID is answered with not found")
		}
		return
	}
	var ack fs.HelloRVAck31
	vx.Assert(fs.CborCust.Unmarshal(rec.Body, &ack) == nil, "the answer to a hello decodes")
	vx.Assert(vx.And(ack.EBSigInfo.SgType == sg, vx.EqBytes(ack.EBSigInfo.Info, info)), "the answer to a hello carries the signature info")
}

// Every single deviation is refused and reveals no redirect.
func H_refuse() {
	s := vxs.NewRV()
	dev := vxf.SgTypes[vx.Choose("device key type", 2)]
	v := device(dev, fs.StSECP256R1, "guid")
	other := device(dev, fs.StSECP256R1, "guid 2")
	vx.Assume(v.H.OVGuid != other.H.OVGuid)
	register(s, v, 8043)
	register(s, other, 8043)
	tok, nonce := s.Hello1(v.H.OVGuid, dev)
	key, g := v.DevKey, v.H.OVGuid
	sg := dev
	ct, post := "application/cbor", &tok
	tamper := func(c *fs.CoseSignature) {}
	var body []byte
	switch vx.Choose("deviation", 17) {
	case 0: // any other nonce
		var n fs.FdoNonce
		copy(n[:], vx.Bytes("nonce", 16))
		vx.Assume(n != nonce)
		nonce = n
	case 1: // the nonce of another session for the GUID
		_, n := s.Hello1(v.H.OVGuid, dev)
		vx.Assume(n != nonce)
		nonce = n
	case 2: // the device of the other GUID, with its GUID or this one
		key = other.DevKey
		if vx.Choose("its GUID", 2) == 1 {
			g = other.H.OVGuid
		}
	case 3: // the owner
		key, sg = v.OwnerKey(), v.Sg
	case 4: // a stranger
		key, _ = vxf.Key(dev)
	case 5: // a proof for this session presented in the other device's
		t, n := s.Hello1(other.H.OVGuid, dev)
		vx.Assume(n != nonce)
		post = &t
	case 6: // the other device's session, with its nonce, proved by this device
		var t string
		t, nonce = s.Hello1(other.H.OVGuid, dev)
		post = &t
		if vx.Choose("its GUID", 2) == 1 {
			g = other.H.OVGuid
		}
	case 7:
		post = nil
	case 8:
		t := "Bearer " + string([]byte{'a' + vx.Byte("token")%26, '-'})
		post = &t
	case 9:
		vxm.Advance(s.DB, 10*time.Minute+time.Second)
	case 10: // a session of TO0
		t, n := s.Hello0()
		nonce, post = n, &t
		if vx.Choose("zero nonce", 2) == 1 {
			nonce = fs.FdoNonce{}
		}
	case 11:
		ct = []string{"", "text/plain", "application/json", "application/cbo", "application/cbor2"}[vx.Choose("content type", 5)]
	case 12:
		tamper = func(c *fs.CoseSignature) {
			d := vx.Byte("difference")
			vx.Assume(d != 0)
			b := append([]byte{}, c.Signature...)
			b[vx.Choose("at", 4)] ^= d
			c.Signature = b
		}
	case 13:
		tamper = func(c *fs.CoseSignature) {
			c.Protected = vx.Bytes("protected", vx.Choose("protected length", 2))
		}
	case 14: // the right payload over another signature of the device
		tamper = func(c *fs.CoseSignature) {
			c.Signature = proof(v.H.OVGuid, fs.FdoNonce{1}, key, sg).Signature
			vx.Assume(nonce != fs.FdoNonce{1})
		}
	case 15: // the redirect has expired
		vxm.Advance(s.DB, 3601*time.Second)
	case 16:
		body = vx.Bytes("body", vx.Choose("body length", vx.Bound("free body bytes", 1, 2)+1))
	}
	if body == nil {
		c := proof(g, nonce, key, sg)
		tamper(&c)
		body = vxf.Marshal(c)
	}
	before := vxs.Snap(s.DB, true)
	rec := s.PostAs(32, ct, post, body)
	vx.Assert(rec.Code != 200, "a proof that deviates is refused")
	vxs.IsError(rec, 32)
	vx.Assert(vxs.Same(before, vxs.Snap(s.DB, true)), "a refused proof changes no redirect")
}

// The signature type of the session decides which key type is accepted.
func H_sg_type() {
	s := vxs.NewRV()
	d := vx.Choose("device key type", 2)
	said := vx.Choose("key type said", 4)
	v := device(vxf.SgTypes[d], fs.StSECP256R1, "guid")
	want := register(s, v, 8043)
	tok, nonce := s.Hello1(v.H.OVGuid, vxf.SgTypes[said])
	rec := s.Post(32, &tok, vxf.Marshal(proof(v.H.OVGuid, nonce, v.DevKey, vxf.SgTypes[d])))
	if d == said {
		released(rec, want)
		return
	}
	vx.Assert(rec.Code != 200, "a proof of another key type than the session's is refused")
	vxs.IsError(rec, 32)
}
