package main

import (
	"crypto/ecdsa"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"math/big"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
)

var encs = []fs.FdoPkEnc{fs.X509, fs.X5CHAIN, fs.COSEKEY}

func payload(name string) []byte {
	return vx.Bytes(name, vx.Choose(name+" length", vx.Bound(name+" bytes", 3, 8)+1))
}

// What is signed verifies, for every type, encoding and payload.
func H_roundtrip() {
	vx.Option("key-shapes", 1)
	vx.Option("sig-shapes", 1)
	i := vx.Choose("type", 4)
	sg := vxf.SgTypes[i]
	priv, _ := vxf.Key(sg)
	pub := vxf.Encode(priv, sg, encs[vx.Choose("encoding", 3)])
	p := payload("payload")
	var prot fs.ProtectedHeader
	if vx.Choose("kid", 2) == 1 {
		k := vx.Bytes("kid", 2)
		prot.Kid = &k
	}
	var un fs.UnprotectedHeader
	if vx.Choose("nonce", 2) == 1 {
		var n fs.FdoNonce
		copy(n[:], vx.Bytes("nonce", 16))
		un.CUPHNonce = &n
	}
	s, err := fs.GenerateCoseSignature(p, prot, un, priv, sg)
	vx.Assert(err == nil && s != nil, "every supported signature type signs")
	vx.Assert(vx.EqBytes(s.Payload, p), "the signed message carries the payload")
	vx.Assert((s.Unprotected.CUPHNonce == nil) == (un.CUPHNonce == nil), "the signed message carries its unprotected header")
	if un.CUPHNonce != nil && s.Unprotected.CUPHNonce != nil {
		vx.Assert(*s.Unprotected.CUPHNonce == *un.CUPHNonce, "the signed message carries its unprotected header")
	}
	var got fs.ProtectedHeader
	vx.Assert(fs.CborCust.Unmarshal(s.Protected, &got) == nil, "the protected header decodes")
	vx.Assert(got.Alg != nil && *got.Alg == int(sg), "the protected header names the signature type")
	vx.Assert((got.Kid == nil) == (prot.Kid == nil), "the protected header keeps its other fields")
	if got.Kid != nil && prot.Kid != nil {
		vx.Assert(vx.EqBytes(*got.Kid, *prot.Kid), "the protected header keeps its other fields")
	}
	want := []int{64, 96, 256, 384}[i]
	vx.Assert(len(s.Signature) == want, "the signature has the length of its algorithm")
	vx.Assert(fs.VerifyCoseSignature(*s, pub) == nil, "a signed message verifies under the signer's key")
	// once more over the wire
	b, err := fs.CborCust.Marshal(*s)
	vx.Assert(err == nil, "a signed message encodes")
	var s2 fs.CoseSignature
	vx.Assert(fs.CborCust.Unmarshal(b, &s2) == nil, "a signed message decodes")
	vx.Assert(fs.VerifyCoseSignature(s2, pub) == nil, "a signed message verifies after transport")
}

// Signatures and keys over the wire, in the encoding that survives it.
func H_key_transport() {
	vx.Option("key-shapes", 1)
	sg := vxf.SgTypes[vx.Choose("type", 4)]
	priv, pub := vxf.Key(sg)
	s, err := fs.GenerateCoseSignature([]byte("payload"), fs.ProtectedHeader{}, fs.UnprotectedHeader{CUPHOwnerPubKey: &pub}, priv, sg)
	vx.Assert(err == nil, "every supported signature type signs")
	b, err := fs.CborCust.Marshal(*s)
	vx.Assert(err == nil, "a signed message encodes")
	var s2 fs.CoseSignature
	vx.Assert(fs.CborCust.Unmarshal(b, &s2) == nil && s2.Unprotected.CUPHOwnerPubKey != nil, "a signed message decodes")
	vx.Assert(s2.Unprotected.CUPHOwnerPubKey.Equal(pub) == nil, "a transported key equals the original")
	vx.Assert(fs.VerifyCoseSignature(s2, *s2.Unprotected.CUPHOwnerPubKey) == nil, "a signed message verifies under its transported key")
}

// Any other payload, protected header or signature is refused.
func H_tamper() {
	i := vx.Choose("type", 4)
	sg := vxf.SgTypes[i]
	priv, _ := vxf.Key(sg)
	pub := vxf.Encode(priv, sg, encs[vx.Choose("encoding", 3)])
	p := payload("payload")
	s, err := fs.GenerateCoseSignature(p, fs.ProtectedHeader{}, fs.UnprotectedHeader{}, priv, sg)
	vx.Assert(err == nil, "every supported signature type signs")
	t := *s
	switch vx.Choose("change", 5) {
	case 0:
		t.Payload = payload("other payload")
		vx.Assume(!vx.EqBytes(t.Payload, p))
	case 1:
		t.Protected = payload("other protected")
		vx.Assume(!vx.EqBytes(t.Protected, s.Protected))
	case 2: // bytes moved between the two
		t.Payload = payload("other payload")
		t.Protected = payload("other protected")
		vx.Assume(vx.Or(!vx.EqBytes(t.Protected, s.Protected), !vx.EqBytes(t.Payload, p)))
	case 3: // one byte of the signature
		g := append([]byte{}, s.Signature...)
		at := vx.Choose("signature byte", len(g)/16) * 16
		if at > 0 {
			at += 15
		}
		d := vx.Byte("difference")
		vx.Assume(d != 0)
		g[at] ^= d
		t.Signature = g
	case 4: // another length
		n := len(s.Signature)
		switch vx.Choose("length", 5) {
		case 0:
			t.Signature = s.Signature[:n-1]
		case 1:
			t.Signature = append(append([]byte{}, s.Signature...), vx.Byte("more"))
		case 2:
			t.Signature = nil
		case 3:
			t.Signature = append([]byte{0}, s.Signature...)
		case 4:
			t.Signature = append(append([]byte{0}, s.Signature[:n/2]...), append([]byte{0}, s.Signature[n/2:]...)...)
		}
	}
	panicked, _ := vx.Try(func() { err = fs.VerifyCoseSignature(t, pub) })
	vx.Assert(!panicked, "verifying an altered message does not crash")
	vx.Assert(err != nil, "an altered message does not verify")
}

// A signature is no signature under another key, type or encoding label.
func H_other_key() {
	i := vx.Choose("type", 4)
	sg := vxf.SgTypes[i]
	priv, _ := vxf.Key(sg)
	s, err := fs.GenerateCoseSignature(payload("payload"), fs.ProtectedHeader{}, fs.UnprotectedHeader{}, priv, sg)
	vx.Assert(err == nil, "every supported signature type signs")
	var pub fs.FdoPublicKey
	switch vx.Choose("change", 3) {
	case 0: // another key of any type
		osg := vxf.SgTypes[vx.Choose("other type", 4)]
		op, _ := vxf.Key(osg)
		pub = vxf.Encode(op, osg, encs[vx.Choose("encoding", 3)])
		pub.PkType = vxf.PkTypes[vx.Choose("declared type", 4)]
	case 1: // the same key declared with another type
		pub = vxf.Encode(priv, sg, encs[vx.Choose("encoding", 3)])
		pub.PkType = fs.FdoPkType(vx.Byte("declared type"))
		vx.Assume(pub.PkType != fs.SgTypeToFdoPkType[sg])
		vx.Assume(vx.Not(vx.And(sg == fs.StRSA2048, pub.PkType == fs.RSAPKCS))) // a 2048 bit key is a PKCS key too
	case 2: // another encoding label
		pub = vxf.Encode(priv, sg, encs[vx.Choose("encoding", 3)])
		e := fs.FdoPkEnc(vx.Byte("declared encoding"))
		vx.Assume(e != pub.PkEnc)
		pub.PkEnc = e
	}
	panicked, _ := vx.Try(func() { err = fs.VerifyCoseSignature(*s, pub) })
	vx.Assert(!panicked, "verifying under another key does not crash")
	vx.Assert(err != nil, "a message does not verify under another key, type or encoding")
}

// A signature made with an algorithm that is not the one of the declared key type.
func H_other_algorithm() {
	p := payload("payload")
	prot, _ := fs.CborCust.Marshal(fs.ProtectedHeader{})
	tbs, err := fs.NewSig1Payload(prot, p)
	vx.Assert(err == nil, "the signed structure encodes")
	i := vx.Choose("type", 2)
	sg := vxf.SgTypes[i]
	priv, _ := vxf.Key(sg)
	k := priv.(*ecdsa.PrivateKey)
	var r, q *big.Int
	n := []int{32, 48}[i]
	h := vx.Choose("digest", 2)
	if h == 0 {
		d := sha256.Sum256(tbs)
		r, q, err = ecdsa.Sign(rand.Reader, k, d[:])
	} else {
		d := sha512.Sum384(tbs)
		r, q, err = ecdsa.Sign(rand.Reader, k, d[:])
	}
	vx.Assert(err == nil, "signing works")
	declared := vx.Choose("declared type", 2)
	m := []int{32, 48}[declared]
	if m < n {
		m = n
	}
	pad := func(x *big.Int) []byte {
		b := x.Bytes()
		return append(make([]byte, m-len(b)), b...)
	}
	sig := append(pad(r), pad(q)...)
	pub := vxf.Encode(priv, sg, encs[vx.Choose("encoding", 3)])
	pub.PkType = vxf.PkTypes[declared]
	err = fs.VerifyCoseSignature(fs.CoseSignature{Protected: prot, Payload: p, Signature: sig}, pub)
	vx.Assert((err == nil) == (declared == i && h == i), "a signature verifies only with the algorithm of its key type")
}

// The signing function refuses keys that do not fit the type.
func H_wrong_private_key() {
	i, j := vx.Choose("key type", 4), vx.Choose("signature type", 4)
	vx.Assume(i != j)
	priv, _ := vxf.Key(vxf.SgTypes[i])
	sg := vxf.SgTypes[j]
	var s *fs.CoseSignature
	var err error
	panicked, _ := vx.Try(func() {
		s, err = fs.GenerateCoseSignature([]byte("x"), fs.ProtectedHeader{}, fs.UnprotectedHeader{}, priv, sg)
	})
	vx.Assert(!panicked, "signing with an unfit key does not crash")
	if i < 2 || j < 2 {
		vx.Assert(err != nil && s == nil, "signing with an unfit key is refused")
	}
	unk := fs.SgType(vx.Int("unknown type", -300, 200))
	for _, k := range vxf.SgTypes {
		vx.Assume(unk != k)
	}
	_, err = fs.GenerateCoseSignature([]byte("x"), fs.ProtectedHeader{}, fs.UnprotectedHeader{}, priv, unk)
	vx.Assert(err != nil, "an unknown signature type is refused")
}

// Bodies that are no keys are refused without a crash.
func H_garbage_key() {
	priv, _ := vxf.Key(fs.StSECP256R1)
	s, _ := fs.GenerateCoseSignature([]byte("x"), fs.ProtectedHeader{}, fs.UnprotectedHeader{}, priv, fs.StSECP256R1)
	pub := fs.FdoPublicKey{PkType: vxf.PkTypes[vx.Choose("type", 4)], PkEnc: fs.FdoPkEnc(vx.Choose("encoding", 5))}
	switch vx.Choose("body", 12) {
	case 0:
	case 1:
		pub.PkBody = vx.Bytes("body", 3)
	case 2:
		pub.PkBody = []fs.X509CertificateBytes{}
	case 3:
		pub.PkBody = []fs.X509CertificateBytes{vx.Bytes("cert", 3), vx.Bytes("root", 2)}
	case 4:
		pub.PkBody = []interface{}{[]byte{1}}
	case 5:
		pub.PkBody = map[interface{}]interface{}{uint64(1): uint64(2)}
	case 6:
		pub.PkBody = fs.CosePublicKey{Kty: fs.CoseConsts(vx.Int("kty", 0, 4)), Alg: fs.CoseAlg(vx.Int("alg", -260, 4))}
	case 7:
		pub.PkBody = fs.CosePublicKey{Kty: fs.CoseEC2, CrvOrN: fs.CoseAlg(vx.Int("crv", -1, 5)), XorE: vx.Bytes("x", 2), Y: vx.Bytes("y", 2)}
	case 8:
		pub.PkBody = fs.CosePublicKey{Kty: fs.CoseEC2, CrvOrN: vx.U64("crv")}
	case 9:
		pub.PkBody = fs.CosePublicKey{Kty: fs.CoseRSA, Alg: fs.CA_PKCS1_SHA256, CrvOrN: vx.Bytes("n", 2)}
	case 10:
		pub.PkBody = fs.CosePublicKey{Kty: fs.CoseRSA, Alg: fs.CA_PKCS1_SHA256, CrvOrN: "no"}
	case 11:
		pub.PkBody = int64(3)
	}
	var err error
	panicked, _ := vx.Try(func() { err = fs.VerifyCoseSignature(*s, pub) })
	vx.Assert(!panicked, "verifying under something that is no key does not crash")
	vx.Assert(err != nil, "a message does not verify under something that is no key")
}

// Chains: the leaf must chain to the root.
func H_chain() {
	priv, _ := vxf.Key(fs.StSECP256R1)
	c := vxf.Chain(priv)
	other := vxf.Chain(priv)
	s, _ := fs.GenerateCoseSignature(payload("payload"), fs.ProtectedHeader{}, fs.UnprotectedHeader{}, priv, fs.StSECP256R1)
	var l []fs.X509CertificateBytes
	ok := false
	switch vx.Choose("chain", 12) {
	case 0:
		l, ok = c, true
	case 1:
		l = []fs.X509CertificateBytes{c[0]}
	case 2:
		l = []fs.X509CertificateBytes{c[0], other[1]}
	case 3:
		l = []fs.X509CertificateBytes{c[1], c[0]}
	case 4:
		l = []fs.X509CertificateBytes{c[0], c[0]}
	case 5:
		l = []fs.X509CertificateBytes{}
	case 6:
		l, ok = []fs.X509CertificateBytes{c[0], other[1], c[1]}, true
	case 7:
		l = []fs.X509CertificateBytes{c[1], c[1]}
	case 8: // the leaf as its own root
		l = []fs.X509CertificateBytes{c[0], c[1], c[0]}
	case 9:
		l = []fs.X509CertificateBytes{c[0], c[1], other[0]}
	case 10: // only an intermediate issued the leaf
		l = []fs.X509CertificateBytes{c[0], c[1], other[1]}
	case 11:
		l = []fs.X509CertificateBytes{c[0], other[1], c[1], c[0]}
	}
	err := fs.VerifyCoseSignatureWithCertificate(*s, fs.SECP256R1, l)
	vx.Assert((err == nil) == ok, "a message verifies under a certificate chain exactly when the chain is valid and its leaf signed it")
}
