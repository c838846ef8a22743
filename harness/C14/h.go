package main

import (
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
)

func guid() (g fs.FdoGuid) {
	copy(g[:], vx.Bytes("guid", 16))
	return
}

func validate(v fs.OwnershipVoucher) bool {
	var err error
	p, msg := vx.Try(func() { err = v.Validate() })
	vx.Assert(!p, "validation of a voucher does not crash")
	_ = msg
	return err == nil
}

func wire(v fs.OwnershipVoucher) fs.OwnershipVoucher {
	var r fs.OwnershipVoucher
	vx.Assert(fs.CborCust.Unmarshal(vxf.Marshal(v), &r) == nil, "a voucher decodes")
	return r
}

// rebuild signs the entries over the current header again.
func rebuild(v *vxf.Voucher, n int) {
	v.SetHeader()
	v.V.OVEntryArray = nil
	v.Owner, v.OwnerPub = v.Owner[:1], v.OwnerPub[:1]
	for i := 0; i < n; i++ {
		v.Extend()
	}
}

// Every device and owner key type.
func H_correct() {
	d := vx.Choose("device key type", 2)
	o := vx.Choose("owner key type", 4)
	v := vxf.Build(vxf.Opt{DevSg: vxf.SgTypes[d], Sg: vxf.SgTypes[o], N: 1 + vx.Choose("entries", 2), Guid: guid(), Secret: vx.Bytes("secret", 32)})
	vx.Assert(validate(v.V), "a correct voucher is accepted")
	vx.Assert(validate(wire(v.V)), "a correct voucher is accepted after transport")
}

// Header fields, with entries that are right for the header.
func H_header() {
	n := 1
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: vxf.SgTypes[vx.Choose("owner key type", 2)], N: 0, Guid: guid()})
	good := true
	switch vx.Choose("field", 6) {
	case 0:
		v.H.OVHProtVer = fs.ProtVersion(vx.U16("header version"))
		good = v.H.OVHProtVer == 101
	case 1:
		v.V.OVProtVer = fs.ProtVersion(vx.U16("version"))
		good = v.V.OVProtVer == 101
	case 2:
		v.H.OVRvInfo = fs.RendezvousInfo{}
		if vx.Choose("nil", 2) == 1 {
			v.H.OVRvInfo = nil
		}
		good = false
	case 3:
		v.H.OVDeviceInfo = ""
		good = false
	case 4:
		h := *v.H.OVDevCertChainHash
		h.Hash = vx.Bytes("chain hash", 48)[:[]int{0, 16, 31, 32, 33, 48}[vx.Choose("chain hash length", 6)]]
		good = vx.EqBytes(h.Hash, v.H.OVDevCertChainHash.Hash)
		v.H.OVDevCertChainHash = &h
	case 5:
		h := *v.H.OVDevCertChainHash
		h.Type = fs.HashType(int(vx.U16("chain hash type")) - 100)
		good = h.Type == v.H.OVDevCertChainHash.Type
		v.H.OVDevCertChainHash = &h
	}
	rebuild(v, n)
	w := v.V
	if vx.Choose("transport", 2) == 1 {
		w = wire(v.V)
	}
	got := validate(w)
	vx.Assert(vx.Implies(got, good), "a voucher with a wrong version, certificate chain hash or empty header field is rejected")
	vx.Assert(vx.Implies(good, got), "a correct voucher is accepted")
}

// The chain in the voucher is not the one of the header.
func H_chain() {
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: guid()})
	c := append([]fs.X509CertificateBytes{}, *v.V.OVDevCertChain...)
	t := v.V
	t.OVDevCertChain = &c
	switch vx.Choose("change", 6) {
	case 0:
		c = c[:1]
	case 1:
		c = nil
	case 2:
		c[0], c[1] = c[1], c[0]
	case 3:
		k, _ := vxf.Key(fs.StSECP256R1)
		c = vxf.Chain(k)
	case 4:
		i := vx.Choose("certificate", 2)
		at := vx.Int("at", 0, len(c[i])-1)
		d := vx.Byte("difference")
		vx.Assume(d != 0)
		b := append([]byte{}, c[i]...)
		b[at] ^= d
		c[i] = b
	case 5:
		c = append(c, vx.Bytes("more", 2))
	}
	vx.Assert(!validate(t), "a certificate chain that is not the one hashed in the header is rejected")
}

// A broken entry makes the whole voucher invalid.
func H_entry() {
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: vxf.SgTypes[vx.Choose("owner key type", 4)], N: 2, Guid: guid()})
	t := v.V
	t.OVEntryArray = append(fs.OVEntryArray{}, t.OVEntryArray...)
	i := vx.Choose("entry", 2)
	e := &t.OVEntryArray[i]
	switch vx.Choose("change", 4) {
	case 0:
		g := append([]byte{}, e.Signature...)
		d := vx.Byte("difference")
		vx.Assume(d != 0)
		g[vx.Choose("at", 4)] ^= d
		e.Signature = g
	case 1:
		e.Payload = vx.Bytes("payload", vx.Choose("payload length", vx.Bound("free payload bytes", 1, 3)+1))
	case 2:
		t.OVEntryArray = t.OVEntryArray[1:]
	case 3:
		k, p := vxf.Key(v.Sg)
		v.V.OVEntryArray = t.OVEntryArray
		*e = v.Entry(vxf.Hash(v.Prev(i), v.HashAlg), p, k)
	}
	vx.Assert(!validate(t), "a voucher with a broken entry is rejected")
}

// Null fields and undecodable parts end in an error.
func H_malformed() {
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 0, Guid: guid()})
	n := vx.Choose("entries", 2)
	mod := func(t *fs.OwnershipVoucher) {}
	switch vx.Choose("field", 9) {
	case 0:
		v.H.OVDevCertChainHash = nil
	case 1:
		mod = func(t *fs.OwnershipVoucher) { t.OVDevCertChain = nil }
	case 2:
		v.H.OVPublicKey.PkBody = nil
	case 3:
		v.H.OVPublicKey = fs.FdoPublicKey{PkType: fs.FdoPkType(vx.Byte("key type")), PkEnc: fs.FdoPkEnc(vx.Byte("encoding")), PkBody: vx.Bytes("body", 2)}
	case 4:
		mod = func(t *fs.OwnershipVoucher) { t.OVHeaderTag = vx.Bytes("header", vx.Choose("header length", 3)) }
	case 5:
		mod = func(t *fs.OwnershipVoucher) {
			vx.Assume(n == 1)
			t.OVEntryArray[0] = fs.CoseSignature{Protected: vx.Bytes("protected", vx.Choose("length", 2)), Payload: vx.Bytes("payload", vx.Choose("payload length", 3)), Signature: vx.Bytes("signature", vx.Choose("signature length", 2))}
		}
	case 6:
		v.H.OVDevCertChainHash = &fs.HashOrHmac{Type: fs.HashType(int(vx.U16("chain hash type")) - 100)}
	case 7: // the header key is right but in an encoding that does not fit the body
		v.H.OVPublicKey.PkEnc = fs.FdoPkEnc(vx.Byte("encoding"))
		vx.Assume(v.H.OVPublicKey.PkEnc != fs.X509)
		vx.Assume(n == 1)
	case 8:
		var p fs.OVEntryPayload
		p.OVEHashPrevEntry.Type = fs.HashType(int(vx.U16("prev hash type")) - 100)
		p.OVEPubKey.PkBody = nil
		vx.Assume(n == 1)
		mod = func(t *fs.OwnershipVoucher) { t.OVEntryArray[0].Payload = vxf.Marshal(p) }
	}
	rebuild(v, n)
	t := v.V
	t.OVEntryArray = append(fs.OVEntryArray{}, t.OVEntryArray...)
	mod(&t)
	got := validate(t)
	if n > 0 {
		vx.Assert(!got, "a voucher with missing or undecodable parts is rejected")
	}
	validate(wire(t))
}

// Whatever decodes as a voucher is validated without a crash.
func H_decodable() {
	n := vx.Bound("free voucher bytes", 2, 3)
	b := vx.Bytes("voucher", vx.Choose("length", n+1))
	pre := [][]byte{nil, {0x85, 0x18, 0x65}, {0x85, 0x18, 0x65, 0x41}, {0x85, 0x18, 0x65, 0x40, 0x82, 0x05, 0x40}}[vx.Choose("beginning", 4)]
	var v fs.OwnershipVoucher
	if fs.CborCust.Unmarshal(append(pre[:len(pre):len(pre)], b...), &v) == nil {
		vx.Reach("a decodable voucher")
		validate(v)
	}
}

// Certificate chains of any length: all of it is hashed.
func H_long_chain() {
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 0, Guid: fs.FdoGuid{1, 2, 3}, Secret: []byte("secret")})
	vx.Option("concrete-rand", 1)
	n := []int{1, 3, 4, 8, 16}[vx.Choose("certificates", vx.Bound("certificate counts", 4, 5))]
	c := append([]fs.X509CertificateBytes{}, *v.V.OVDevCertChain...)
	for i := len(c); i < n; i++ {
		c = append(c, vx.Bytes("certificate", 3))
	}
	c = c[:n]
	var all []byte
	for _, b := range c {
		all = append(all, b...)
	}
	h := vxf.Hash(all, v.H.OVDevCertChainHash.Type)
	v.H.OVDevCertChainHash = &h
	rebuild(v, 1)
	v.V.OVDevCertChain = &c
	vx.Assert(validate(v.V), "a correct voucher is accepted")
	d := append([]fs.X509CertificateBytes{}, c...)
	i := vx.Choose("changed", n)
	if vx.Choose("left out", 2) == 1 {
		vx.Assume(len(d[i]) > 0)
		d = append(d[:i], d[i+1:]...)
	} else {
		b := append([]byte{}, d[i]...)
		x := vx.Byte("difference")
		vx.Assume(x != 0)
		b[vx.Choose("at", 3)*(len(b)-1)/2] ^= x
		d[i] = b
	}
	v.V.OVDevCertChain = &d
	vx.Assert(!validate(v.V), "a certificate chain that is not the one hashed in the header is rejected")
}
