package main

import (
	"crypto/aes"
	"crypto/cipher"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/ccm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
)

// What the standards prescribe for a suite.
type suite struct {
	name          fs.CipherSuiteName
	key, iv       int
	gcm, ccm, ctr bool
	kdf           fs.HashType
}

var suites = []suite{
	{name: 1, key: 16, iv: 12, gcm: true, kdf: fs.HASH_HMAC_SHA256},
	{name: 3, key: 32, iv: 12, gcm: true, kdf: fs.HASH_HMAC_SHA256},
	{name: 30, key: 16, iv: 13, ccm: true, kdf: fs.HASH_HMAC_SHA256},
	{name: 31, key: 32, iv: 13, ccm: true, kdf: fs.HASH_HMAC_SHA256},
	{name: 32, key: 16, iv: 7, ccm: true, kdf: fs.HASH_HMAC_SHA256},
	{name: 33, key: 32, iv: 7, ccm: true, kdf: fs.HASH_HMAC_SHA256},
	{name: -17760704, key: 16, iv: 16, ctr: true, kdf: fs.HASH_HMAC_SHA256},
}

func pick() suite { return suites[vx.Choose("suite", len(suites))] }

func key(name string, n, ctx int) fs.SessionKeyInfo {
	return fs.SessionKeyInfo{ShSe: vx.Bytes(name+" secret", n), ContextRand: vx.Bytes(name+" context", ctx)}
}

func must(err error, label string) { vx.Assert(err == nil, label) }

func wrap(p []byte, k fs.SessionKeyInfo, s suite) []byte {
	w, err := fs.AddEncryptionWrapping(p, k, s.name)
	must(err, "wrapping with a supported suite succeeds")
	return w
}

// unwrap never panics; a payload is only returned without an error.
func unwrap(w []byte, k fs.SessionKeyInfo, s suite) ([]byte, bool) {
	var p []byte
	var err error
	crashed, _ := vx.Try(func() { p, err = fs.RemoveEncryptionWrapping(w, k, s.name) })
	vx.Assert(!crashed, "unwrapping does not crash")
	vx.Assert(crashed || err == nil || len(p) == 0, "an error comes without a payload")
	return p, err == nil
}

func H_round_trip() {
	s := pick()
	k := key("key", []int{0, 1, 32, 48, 64}[vx.Choose("secret length", 5)], vx.Choose("context length", 3))
	p := vx.Bytes("payload", vx.Choose("payload length", vx.Bound("payload bytes", 36, 80)))
	w := wrap(p, k, s)
	got, ok := unwrap(w, k, s)
	vx.Assert(ok, "unwrapping a wrapped message succeeds")
	vx.Assert(vx.EqBytes(got, p), "unwrapping returns the payload")
	w2 := append([]byte{}, w...)
	got, ok = unwrap(w2, k, s)
	vx.Assert(ok && vx.EqBytes(got, p), "unwrapping returns the payload")
	if vx.Choose("another message", 2) == 1 {
		q := vx.Bytes("payload 2", 5)
		w2 := wrap(q, k, s)
		got, ok = unwrap(w2, k, s)
		vx.Assert(ok && vx.EqBytes(got, q), "unwrapping returns the payload")
		got, ok = unwrap(w, k, s)
		vx.Assert(ok && vx.EqBytes(got, p), "unwrapping returns the payload")
	}
}

// open decodes an encrypted message block.
func open(b []byte) fs.EMB_ETMInnerBlock {
	var e fs.EMB_ETMInnerBlock
	must(fs.CborCust.Unmarshal(b, &e), "a wrapped message is an encrypted message block")
	return e
}

func outer(b []byte) fs.ETMOuterBlock {
	var e fs.ETMOuterBlock
	must(fs.CborCust.Unmarshal(b, &e), "a wrapped message is a MAC block")
	return e
}

func alg(b []byte) int {
	var p fs.ProtectedHeader
	must(fs.CborCust.Unmarshal(b, &p), "a protected header decodes")
	vx.Assert(p.Alg != nil, "a protected header names the algorithm")
	return *p.Alg
}

// The message has the form, algorithms, IV, key and tag lengths the suite prescribes.
func H_format() {
	s := pick()
	k := key("key", []int{16, 32}[vx.Choose("secret length", 2)], vx.Choose("context length", 2))
	p := vx.Bytes("payload", vx.Choose("payload length", vx.Bound("payload bytes", 20, 40)))
	w := wrap(p, k, s)
	var inner fs.EMB_ETMInnerBlock
	var svk []byte
	length := s.key
	if s.ctr {
		length = 32 + 16
	}
	keys, err := fs.Sp800108CounterKDF(length, s.kdf, k.ShSe, k.ContextRand)
	must(err, "keys are derived")
	sek := keys
	if s.ctr {
		svk, sek = keys[:32], keys[32:]
		o := outer(w)
		vx.Assert(alg(o.Protected) == 5, "the MAC block names HMAC-SHA256")
		// ["MAC0", {1: 5}, h'', payload]
		mac := []byte{0xd1, 0x84, 0x64, 'M', 'A', 'C', '0', 0xa1, 1, 5, 0x40}
		mac = append(mac, vxf.Marshal(o.Payload)...)
		h, err := fs.GenerateFdoHmac(mac, fs.HASH_HMAC_SHA256, svk)
		must(err, "an HMAC is computed")
		vx.Assert(vx.EqBytes(o.Tag, h.Hash), "the tag is the HMAC of the MAC structure under the verification key")
		inner = open(o.Payload)
	} else {
		inner = open(w)
	}
	vx.Assert(alg(inner.Protected) == int(s.name), "the block names the suite's algorithm")
	iv := inner.Unprotected.AESIV
	vx.Assert(iv != nil && len(*iv) == s.iv, "the IV has the suite's length")
	b, err := aes.NewCipher(sek)
	must(err, "the key has the suite's length")
	// ["Encrypt0", protected, h'']
	aad := append([]byte{0x83, 0x68, 'E', 'n', 'c', 'r', 'y', 'p', 't', '0'}, vxf.Marshal(inner.Protected)...)
	aad = append(aad, 0x40)
	var want []byte
	switch {
	case s.gcm:
		g, err := cipher.NewGCM(b)
		must(err, "GCM")
		want = g.Seal(nil, *iv, p, aad)
	case s.ccm:
		g, err := ccm.NewCCM(b, 16, s.iv)
		must(err, "CCM")
		want = g.Seal(nil, *iv, p, aad)
	default:
		want = make([]byte, len(p))
		cipher.NewCTR(b, *iv).XORKeyStream(want, p)
	}
	vx.Assert(vx.EqBytes(inner.Ciphertext, want), "the ciphertext is the suite's encryption of the payload under the derived key")
}

func flip(name string, b []byte) []byte {
	r := append([]byte{}, b...)
	at := vx.Int(name+" at", 0, len(b)-1)
	d := vx.Byte(name + " difference")
	vx.Assume(d != 0)
	r[at] ^= d
	return r
}

// cut or extend
func resize(name string, b []byte) []byte {
	if vx.Choose(name+" longer", 2) == 1 {
		return append(append([]byte{}, b...), vx.Bytes(name+" more", 1+vx.Choose(name+" added", 2))...)
	}
	vx.Assume(len(b) > 0)
	return b[:vx.Choose(name+" kept", len(b))]
}

func H_tamper() {
	vx.Option("short-digests", 1)
	s := pick()
	k := key("key", 32, 0)
	p := vx.Bytes("payload", vx.Choose("payload length", vx.Bound("payload bytes", 3, 18)))
	w := wrap(p, k, s)
	var o fs.ETMOuterBlock
	var in fs.EMB_ETMInnerBlock
	if s.ctr {
		o = outer(w)
		in = open(o.Payload)
	} else {
		in = open(w)
	}
	n := 9
	if s.ctr {
		n = 13
	}
	same := false
	switch vx.Choose("change", n) {
	case 0:
		vx.Assume(len(in.Ciphertext) > 0)
		in.Ciphertext = flip("ciphertext", in.Ciphertext)
	case 1:
		in.Ciphertext = resize("ciphertext", in.Ciphertext)
	case 2:
		iv := flip("iv", *in.Unprotected.AESIV)
		in.Unprotected.AESIV = &iv
	case 3:
		iv := resize("iv", *in.Unprotected.AESIV)
		in.Unprotected.AESIV = &iv
	case 4:
		in.Unprotected.AESIV = nil
	case 5: // another algorithm
		a := int(vx.U32("alg")) - 1<<31
		vx.Assume(a != int(s.name))
		in.Protected = vxf.Marshal(fs.ProtectedHeader{Alg: &a})
	case 6: // no algorithm
		in.Protected = [][]byte{{0xa0}, {0xf6}, {}}[vx.Choose("protected", 3)]
	case 7: // the ciphertext of another message with the same key
		q := vx.Bytes("other payload", len(p))
		w2 := wrap(q, k, s)
		vx.Assume(!vx.EqBytes(p, q))
		if s.ctr {
			in = open(outer(w2).Payload)
		} else {
			in.Ciphertext = open(w2).Ciphertext
			vx.Assume(!vx.EqBytes(*in.Unprotected.AESIV, *open(w2).Unprotected.AESIV))
		}
	case 8: // extra protected content
		kid := vx.Bytes("kid", 1)
		a := int(s.name)
		in.Protected = vxf.Marshal(fs.ProtectedHeader{Alg: &a, Kid: &kid})
	case 9:
		o.Tag = flip("tag", o.Tag)
		same = true
	case 10:
		o.Tag = resize("tag", o.Tag)
		same = true
	case 11:
		a := int(vx.Byte("alg")) - 20
		vx.Assume(a != 5)
		o.Protected = vxf.Marshal(fs.ProtectedHeader{Alg: &a})
		same = true
	case 12:
		o.Protected = [][]byte{{0xa0}, {0xf6}, {}}[vx.Choose("protected", 3)]
		same = true
	}
	b := vxf.Marshal(in)
	if s.ctr {
		if !same {
			o.Payload = b
		}
		b = vxf.Marshal(o)
	}
	got, ok := unwrap(b, k, s)
	vx.Assert(!ok && len(got) == 0, "an altered message is refused")
}

// Any byte of the message.
func H_raw_byte() {
	vx.Option("short-digests", 1)
	vx.Option("concrete-rand", 1)
	vx.Option("max-decisions", vx.Bound("decisions per path when a byte is flipped", 12, 30))
	s := suites[[]int{6, 0, 4, 1, 2, 3, 5}[vx.Choose("suite", vx.Bound("suites", 3, 7))]]
	k := key("key", 32, 0)
	p := vx.Bytes("payload", 2)
	w := append([]byte{}, wrap(p, k, s)...)
	if vx.Choose("cut", 2) == 1 {
		w = w[:vx.Choose("kept", len(w))]
	} else {
		at := vx.Choose("byte", len(w))
		d := byte(1)
		if vx.Bound("0: every bit flipped, 1: every change of a byte", 0, 1) == 1 && at%4 == 0 {
			d = vx.Byte("difference")
			vx.Assume(d != 0)
		} else {
			d <<= vx.Choose("bit", 8)
		}
		w[at] ^= d
	}
	got, ok := unwrap(w, k, s)
	vx.Assert(!ok || vx.EqBytes(got, p), "an altered message never yields another payload")
}

// Another key.
func H_other_key() {
	vx.Option("short-digests", 1)
	s := pick()
	n := []int{16, 48}[vx.Choose("secret length", 2)]
	k := key("key", n, 1)
	p := vx.Bytes("payload", vx.Choose("payload length", 3))
	w := wrap(p, k, s)
	var o fs.SessionKeyInfo
	switch vx.Choose("other", 3) {
	case 0:
		o = key("other", n, 1)
		vx.Assume(!vx.And(vx.EqBytes(o.ShSe, k.ShSe), vx.EqBytes(o.ContextRand, k.ContextRand)))
	case 1: // another context length
		o = key("other", 0, []int{0, 2, 3}[vx.Choose("context length", 3)])
		o.ShSe = k.ShSe
	case 2: // a shorter secret
		o.ShSe, o.ContextRand = k.ShSe[:n-1], k.ContextRand
		vx.Assume(k.ShSe[n-1] != 0) // HMAC pads keys with zeros
	}
	got, ok := unwrap(w, o, s)
	vx.Assert(!ok && len(got) == 0, "a message under another key is refused")
}

// Another suite.
func H_other_suite() {
	vx.Option("short-digests", 1)
	s, t := pick(), suites[vx.Choose("other suite", len(suites))]
	vx.Assume(s.name != t.name)
	k := key("key", 32, 0)
	p := vx.Bytes("payload", vx.Choose("payload length", 3))
	w := wrap(p, k, s)
	if vx.Choose("renamed", 2) == 1 && !s.ctr && !t.ctr {
		in := open(w)
		a := int(t.name)
		in.Protected = vxf.Marshal(fs.ProtectedHeader{Alg: &a})
		w = vxf.Marshal(in)
	}
	got, ok := unwrap(w, k, t)
	vx.Assert(!ok && len(got) == 0, "a message of another suite is refused")
}

// A suite that is not implemented.
func H_no_suite() {
	n := fs.CipherSuiteName(int(vx.U64("suite")))
	for _, s := range suites {
		vx.Assume(n != s.name)
	}
	k := key("key", 16, 0)
	p := vx.Bytes("payload", vx.Choose("payload length", 2))
	var w []byte
	var err error
	crashed, _ := vx.Try(func() { w, err = fs.AddEncryptionWrapping(p, k, n) })
	vx.Assert(!crashed && err != nil && len(w) == 0, "wrapping with an unsupported suite is refused")
	in := wrap(p, k, pick())
	crashed, _ = vx.Try(func() { w, err = fs.RemoveEncryptionWrapping(in, k, n) })
	vx.Assert(!crashed && err != nil && len(w) == 0, "unwrapping with an unsupported suite is refused")
}

// Arbitrary bytes.
func H_garbage() {
	s := pick()
	k := key("key", 16, 0)
	b := vx.Bytes("message", vx.Choose("length", vx.Bound("message bytes", 3, 4)))
	got, ok := unwrap(b, k, s)
	vx.Assert(!ok && len(got) == 0, "bytes that are no message are refused")
}

// Two messages of the same key have independent IVs.
func H_fresh_iv() {
	s := pick()
	k := key("key", 16, 0)
	p := vx.Bytes("payload", 2)
	iv := func(w []byte) []byte {
		if s.ctr {
			w = outer(w).Payload
		}
		return *open(w).Unprotected.AESIV
	}
	a, b := iv(wrap(p, k, s)), iv(wrap(p, k, s))
	if vx.EqBytes(a, b) {
		vx.Reach("equal IVs need equal random draws")
	} else {
		vx.Reach("fresh IVs")
	}
	vx.Expect("fresh IVs")
}

// A message with the right tag whose inside is not what the suite prescribes (its sender has the key).
func H_inside() {
	s := suites[len(suites)-1]
	k := key("key", 32, 0)
	o := outer(wrap(vx.Bytes("payload", 3), k, s))
	in := open(o.Payload)
	switch vx.Choose("change", 5) {
	case 0:
		iv := resize("iv", *in.Unprotected.AESIV)
		in.Unprotected.AESIV = &iv
	case 1:
		in.Unprotected.AESIV = nil
	case 2:
		a := int(vx.U32("alg")) - 1<<31
		vx.Assume(a != int(s.name))
		in.Protected = vxf.Marshal(fs.ProtectedHeader{Alg: &a})
	case 3:
		in.Protected = [][]byte{{0xa0}, {0xf6}, {}}[vx.Choose("protected", 3)]
	case 4:
		iv := []byte{}
		in.Unprotected.AESIV = &iv
	}
	o.Payload = vxf.Marshal(in)
	keys, err := fs.Sp800108CounterKDF(16+32, s.kdf, k.ShSe, k.ContextRand)
	must(err, "the keys are derived")
	a := 5
	mac := vxf.Marshal(fs.COSEMacStructure{Context: "MAC0", Protected: fs.ProtectedHeader{Alg: &a}, ExternalAAD: []byte{}, Ciphertext: o.Payload})
	m, err := fs.GenerateFdoHmac(mac, fs.HASH_HMAC_SHA256, keys[:32])
	must(err, "the tag is made")
	o.Tag = m.Hash
	got, ok := unwrap(vxf.Marshal(o), k, s)
	vx.Assert(!ok && len(got) == 0, "a message whose inside is not what the suite prescribes is refused")
	vx.Reach("judged")
}
