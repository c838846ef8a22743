package main

import (
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

func guid(name string) (g fs.FdoGuid) {
	copy(g[:], vx.Bytes(name, 16))
	return
}

func voucher(dev, own fs.SgType, n int, name string) *vxf.Voucher {
	rv := fs.RendezvousInfo{fs.RendezvousDirective{fs.NewRendezvousInstr(fs.RVOwnerPort, vx.U16("rendezvous port"))}}
	return vxf.Build(vxf.Opt{DevSg: dev, Sg: own, N: n, Guid: guid(name), Rv: rv, Secret: []byte("0123456789abcdef")})
}

var ciphers = []fs.CipherSuiteName{fs.CIPHER_A128GCM, fs.CIPHER_COSE_AES128_CTR, fs.CIPHER_A256GCM, fs.CIPHER_AES_CCM_64_128_128, fs.CIPHER_AES_CCM_64_128_256, fs.CIPHER_AES_CCM_16_128_128, fs.CIPHER_AES_CCM_16_128_256}

// accepted is the claim that the proof was accepted for this device and session.
func accepted(d *vxs.Dev, rec *vxm.Rec) {
	vx.Assert(vxs.OK(rec, "65"), "a correct proof is accepted")
	p := d.Answer65(rec)
	vx.Assert(p.ReplacementGuid == d.V.H.OVGuid, "the setup message names the device")
	vx.Assert(p.ReplacementOwner2Key.Equal(d.V.OwnerPub[len(d.V.OwnerPub)-1]) == nil, "the setup message names the owner's key")
	vx.Assert(vx.EqBytes(vxf.Marshal(p.RendezvousInfo), vxf.Marshal(d.V.H.OVRvInfo)), "the setup message has the voucher's rendezvous information")
	e := d.S.Session(d.Token)
	vx.Assert(e != nil && e.PrevCMD == 65, "an accepted proof is recorded")
	vx.Assert(vx.And(vx.EqBytes(e.SessionKey.ShSe, d.Key.ShSe), vx.EqBytes(e.SessionKey.ContextRand, d.Key.ContextRand)), "the session key is the one agreed with the device")
	vx.Assert(e.NonceTO2SetupDv64 == d.Setup, "the device's setup nonce is kept")
}

// refused is the claim that the proof was refused and the session is still not authenticated.
func refused(d *vxs.Dev, rec *vxm.Rec, before []vxm.KV) {
	vxs.IsError(rec, 64)
	vx.Assert(vxs.Same(before, vxs.Snap(d.S.DB, false)), "a refused proof leaves the session as it was")
}

// start runs the protocol up to the proof.
func start(s *vxs.DO, v *vxf.Voucher, kex fs.KexSuiteName, c fs.CipherSuiteName) *vxs.Dev {
	d := s.Hello60(v, kex, c)
	d.Entries()
	d.Exchange()
	return d
}

// A correct proof is accepted, whatever the keys and suites.
func H_accept() {
	own := []fs.SgType{fs.StSECP256R1, fs.StSECP384R1, fs.StRSA2048, fs.StRSA3072}[vx.Choose("owner key type", 4)]
	kexes := []fs.KexSuiteName{fs.KEX_ECDH256, fs.KEX_ECDH384, fs.KEX_DHKEXid14, fs.KEX_DHKEXid15}
	if own == fs.StRSA2048 || own == fs.StRSA3072 {
		kexes = append(kexes, fs.KEX_ASYMKEX2048, fs.KEX_ASYMKEX3072)
	}
	v := voucher([]fs.SgType{fs.StSECP256R1, fs.StSECP384R1}[vx.Choose("device key type", 2)], own, vx.Choose("entries", vx.Bound("entries", 1, 3))+1, "guid")
	s := vxs.NewDO()
	s.Add(v)
	d := start(s, v, kexes[vx.Choose("key exchange", len(kexes))], ciphers[vx.Choose("suite", vx.Bound("suites", 3, 7))])
	accepted(d, s.Post(64, &d.Token, vxf.Marshal(d.Sign(d.EAT(), v.DevKey, v.DevSg))))
}

// Anything else is refused.
func H_reject() {
	dev := []fs.SgType{fs.StSECP256R1, fs.StSECP384R1}[vx.Choose("device key type", 2)]
	v := voucher(dev, fs.StSECP256R1, 1, "guid")
	s := vxs.NewDO()
	s.Add(v)
	d := start(s, v, fs.KEX_ECDH256, fs.CIPHER_A128GCM)
	p := d.EAT()
	var m fs.CoseSignature
	switch vx.Choose("problem", 12) {
	case 0: // another nonce
		n := vx.Bytes("nonce", 16)
		vx.Assume(!vx.EqBytes(n, d.ProveDv[:]))
		copy(p.EatNonce[:], n)
		m = d.Sign(p, v.DevKey, dev)
	case 1: // the nonce of the hello
		p.EatNonce = d.Hello.NonceTO2ProveOV
		vx.Assume(p.EatNonce != d.ProveDv)
		m = d.Sign(p, v.DevKey, dev)
	case 2: // another key of the same type
		k, _ := vxf.Key(dev)
		m = d.Sign(p, k, dev)
	case 3: // the owner's key
		m = d.Sign(p, v.OwnerKey(), v.Sg)
	case 4: // a key of another type
		sg := vxf.SgTypes[vx.Choose("other type", 4)]
		k, _ := vxf.Key(sg)
		m = d.Sign(p, k, sg)
	case 5: // signed, then changed
		m = d.Sign(p, v.DevKey, dev)
		q := p
		n := vx.Bytes("nonce", 16)
		copy(q.EatNonce[:], n)
		q.EatFDO.XBKeyExchange = append([]byte{}, p.EatFDO.XBKeyExchange...)
		q.EatFDO.XBKeyExchange[2] ^= vx.Byte("difference")
		m.Payload = vxf.Marshal(q)
		vx.Assume(!vx.EqBytes(m.Payload, vxf.Marshal(p)))
	case 6: // another signature
		m = d.Sign(p, v.DevKey, dev)
		m.Signature = append([]byte{}, m.Signature...)
		x := vx.Byte("difference")
		vx.Assume(x != 0)
		m.Signature[vx.Choose("half", 2)*len(m.Signature)/2+1] ^= x
	case 7: // another protected header
		m = d.Sign(p, v.DevKey, dev)
		b := vx.Bytes("protected", len(m.Protected))
		vx.Assume(!vx.EqBytes(b, m.Protected))
		m.Protected = b
	case 8: // no signature
		m = d.Sign(p, v.DevKey, dev)
		m.Signature = nil
	case 9: // no setup nonce
		m = d.Sign(p, v.DevKey, dev)
		m.Unprotected.EUPHNonce = nil
	case 10: // a payload that is no attestation
		b := vx.Bytes("payload", vx.Bound("payload bytes", 1, 2))
		x, err := fs.GenerateCoseSignature(b, fs.ProtectedHeader{}, fs.UnprotectedHeader{EUPHNonce: &d.Setup}, v.DevKey, dev)
		vx.Assert(err == nil, "a payload is signed")
		m = *x
	case 11: // a key exchange that is none
		p.EatFDO.XBKeyExchange = vx.Bytes("exchange", vx.Choose("length", 3))
		m = d.Sign(p, v.DevKey, dev)
	}
	before := vxs.Snap(s.DB, false)
	refused(d, s.Post(64, &d.Token, vxf.Marshal(m)), before)
	vx.Assert(s.Session(d.Token).PrevCMD == 63, "a refused proof leaves the session unauthenticated")
}

// A proof is good for one session of one device only.
func H_replay() {
	s := vxs.NewDO()
	a := voucher(fs.StSECP256R1, fs.StSECP256R1, 1, "guid")
	b := voucher(fs.StSECP256R1, fs.StSECP256R1, 1, "guid b")
	vx.Assume(a.H.OVGuid != b.H.OVGuid)
	s.Add(a)
	s.Add(b)
	x := start(s, a, fs.KEX_ECDH256, fs.CIPHER_A128GCM)
	m := x.Sign(x.EAT(), a.DevKey, a.DevSg)
	var y *vxs.Dev
	switch vx.Choose("used in", 3) {
	case 0: // another session of the same device
		y = start(s, a, fs.KEX_ECDH256, fs.CIPHER_A128GCM)
		vx.Assume(x.ProveDv != y.ProveDv)
	case 1: // a session of another device
		y = start(s, b, fs.KEX_ECDH256, fs.CIPHER_A128GCM)
		vx.Assume(x.ProveDv != y.ProveDv)
	case 2: // the other device answers with its own key
		y = start(s, b, fs.KEX_ECDH256, fs.CIPHER_A128GCM)
		p := y.EAT()
		p.EatUEID = fs.GenerateEatGuid(a.H.OVGuid)
		m = y.Sign(p, a.DevKey, a.DevSg)
	}
	before := vxs.Snap(s.DB, false)
	refused(y, s.Post(64, &y.Token, vxf.Marshal(m)), before)
	// the proof still works where it belongs
	if vx.Choose("used where it belongs", 2) == 1 && y.V == b {
		m = x.Sign(x.EAT(), a.DevKey, a.DevSg)
		accepted(x, s.Post(64, &x.Token, vxf.Marshal(m)))
	}
}

// The certificate chain decides, its first certificate alone.
func H_certificates() {
	vx.Option("concrete-rand", 1)
	s := vxs.NewDO()
	v := voucher(fs.StSECP256R1, fs.StSECP256R1, 1, "guid")
	s.Add(v)
	d := start(s, v, fs.KEX_ECDH256, fs.CIPHER_A128GCM)
	e := *s.Session(d.Token)
	k, _ := vxf.Key(fs.StSECP256R1)
	other := vxf.Chain(k)
	switch vx.Choose("chain", 5) {
	case 0:
		e.Voucher.OVDevCertChain = nil
	case 1:
		e.Voucher.OVDevCertChain = &[]fs.X509CertificateBytes{}
	case 2:
		e.Voucher.OVDevCertChain = &other
	case 3: // the device's certificate is not the first
		c := []fs.X509CertificateBytes{other[0], (*v.V.OVDevCertChain)[0]}
		e.Voucher.OVDevCertChain = &c
	case 4:
		e.Voucher.OVDevCertChain = &[]fs.X509CertificateBytes{vx.Bytes("certificate", 2)}
	}
	s.Put(d.Token, e)
	before := vxs.Snap(s.DB, false)
	refused(d, s.Post(64, &d.Token, vxf.Marshal(d.Sign(d.EAT(), v.DevKey, v.DevSg))), before)
}

// A hello that announces another signature type does not let another kind of key in.
func H_announced_type() {
	v := voucher(fs.StSECP256R1, fs.StSECP256R1, 1, "guid")
	s := vxs.NewDO()
	s.Add(v)
	sg := vxf.SgTypes[vx.Choose("announced type", 4)]
	vx.Assume(sg != v.DevSg)
	w := *v
	w.DevSg = sg
	d := start(s, &w, fs.KEX_ECDH256, fs.CIPHER_A128GCM)
	k, ks := v.DevKey, v.DevSg
	if vx.Choose("key", 2) == 1 {
		k, _ = vxf.Key(sg)
		ks = sg
	}
	before := vxs.Snap(s.DB, false)
	refused(d, s.Post(64, &d.Token, vxf.Marshal(d.Sign(d.EAT(), k, ks))), before)
}
