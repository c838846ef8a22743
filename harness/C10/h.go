package main

import (
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"hash"
	"math/big"

	"github.com/fido-alliance/dhkx"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
)

func must(err error, label string) { vx.Assert(err == nil, label) }

type params struct {
	name   fs.KexSuiteName
	c      elliptic.Curve
	n, rnd int // coordinate and random lengths
}

var ecdh = []params{{fs.KEX_ECDH256, elliptic.P256(), 32, 16}, {fs.KEX_ECDH384, elliptic.P384(), 48, 48}}

func generate(name fs.KexSuiteName, pub *fs.FdoPublicKey) *fs.KeXParams {
	k, err := fs.GenerateXABKeyExchange(name, pub)
	must(err, "parameters of a supported suite are generated")
	vx.Assert(k.KexSuit == name, "the parameters are those of the suite asked for")
	return k
}

// derive never crashes.
func derive(k fs.KeXParams, other []byte, device bool, priv any) *fs.SessionKeyInfo {
	var s *fs.SessionKeyInfo
	var err error
	crashed, _ := vx.Try(func() { s, err = fs.DeriveSessionKey(k, other, device, priv) })
	vx.Assert(!crashed, "derivation does not crash")
	vx.Assert(crashed || (err == nil) == (s != nil), "derivation gives a key or an error")
	return s
}

func same(a, b *fs.SessionKeyInfo, label string) {
	vx.Assert(a != nil && b != nil, "both sides derive a key")
	vx.Assert(vx.And(vx.EqBytes(a.ShSe, b.ShSe), vx.EqBytes(a.ContextRand, b.ContextRand)), label)
}

func block(b []byte) []byte { return append([]byte{byte(len(b) >> 8), byte(len(b))}, b...) }

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

// stored is what the server keeps in its session between messages 60 and 64.
func stored(k fs.KeXParams) fs.KeXParams {
	var r fs.KeXParams
	must(fs.CborCust.Unmarshal(vxf.Marshal(k), &r), "parameters survive the session store")
	return r
}

// Elliptic curve Diffie-Hellman, with keys whose coordinates or scalar have leading zeros.
func H_ecdh() {
	vx.Option("key-shapes", 1)
	p := ecdh[vx.Choose("suite", 2)]
	owner, device := generate(p.name, nil), generate(p.name, nil)
	for _, k := range []*fs.KeXParams{owner, device} {
		x := k.XAKeyExchange
		vx.Assert(len(x) == 6+2*p.n+p.rnd, "ECDH parameters have a fixed length")
		vx.Assert(int(x[0])<<8|int(x[1]) == p.n && int(x[2+p.n])<<8|int(x[3+p.n]) == p.n && int(x[4+2*p.n])<<8|int(x[5+2*p.n]) == p.rnd, "ECDH parameters carry the lengths of their parts")
		vx.Assert(len(k.Private) > 0 && !vx.EqBytes(k.Private, x[2:2+p.n]), "the private key is kept apart")
	}
	a := derive(stored(*owner), device.XAKeyExchange, false, nil)
	b := derive(*device, owner.XAKeyExchange, true, nil)
	same(a, b, "owner and device derive the same secret")
	vx.Assert(len(a.ContextRand) == 0, "ECDH gives no context random")
	// Shx || device random || owner random
	d := device.XAKeyExchange
	x, y := new(big.Int).SetBytes(d[2:2+p.n]), new(big.Int).SetBytes(d[4+p.n:4+2*p.n])
	vx.Assert(p.c.IsOnCurve(x, y), "the parameters carry a point of the curve")
	shx, _ := p.c.ScalarMult(x, y, owner.Private)
	want := cat(shx.FillBytes(make([]byte, p.n)), d[6+2*p.n:], owner.XAKeyExchange[6+2*p.n:])
	vx.Assert(vx.EqBytes(a.ShSe, want), "the ECDH secret is the shared point, the device random and the owner random")
	vx.Observe("secret", a.ShSe)
}

// A shared point whose coordinate has a leading zero.
func H_ecdh_short_point() {
	p := ecdh[vx.Choose("suite", 2)]
	owner := generate(p.name, nil)
	x := owner.XAKeyExchange
	ax, ay := new(big.Int).SetBytes(x[2:2+p.n]), new(big.Int).SetBytes(x[4+p.n:4+2*p.n])
	var d, s *big.Int
	for i := int64(2); ; i++ {
		d = big.NewInt(i)
		s, _ = p.c.ScalarMult(ax, ay, d.Bytes())
		if len(s.Bytes()) < p.n {
			break
		}
	}
	bx, by := p.c.ScalarBaseMult(d.Bytes())
	rnd := vx.Bytes("device random", p.rnd)
	xb := cat(block(bx.FillBytes(make([]byte, p.n))), block(by.FillBytes(make([]byte, p.n))), block(rnd))
	a := derive(*owner, xb, false, nil)
	b := derive(fs.KeXParams{Private: d.Bytes(), XAKeyExchange: xb, KexSuit: p.name}, x, true, nil)
	same(a, b, "owner and device derive the same secret")
	vx.Assert(vx.EqBytes(a.ShSe, cat(s.FillBytes(make([]byte, p.n)), rnd, x[6+2*p.n:])), "the ECDH secret is the shared point, the device random and the owner random")
}

// Malformed ECDH parameters.
func H_ecdh_malformed() {
	p := ecdh[vx.Choose("suite", 2)]
	owner := generate(p.name, nil)
	good := generate(p.name, nil).XAKeyExchange
	var x []byte
	switch vx.Choose("deviation", 7) {
	case 0: // any length
		x = good[:vx.Choose("kept", len(good))]
	case 1:
		x = cat(good, vx.Bytes("more", 1+vx.Choose("added", 3)))
	case 2: // a point that is not on the curve, or not a reduced coordinate
		x = cat(good)
		at := 2 + vx.Choose("coordinate", 2)*(p.n+2) + vx.Choose("at", 4)*(p.n/4)
		d := vx.Byte("difference")
		vx.Assume(d != 0)
		x[at] ^= d
		if p.c.IsOnCurve(new(big.Int).SetBytes(x[2:2+p.n]), new(big.Int).SetBytes(x[4+p.n:4+2*p.n])) {
			vx.Assume(false)
		}
	case 3: // lengths that are not those of the suite
		x = cat(good)
		at := []int{0, 1, 2 + p.n, 3 + p.n, 4 + 2*p.n, 5 + 2*p.n}[vx.Choose("length byte", 6)]
		d := vx.Byte("difference")
		vx.Assume(d != 0)
		x[at] ^= d
	case 4:
		x = cat(block(make([]byte, p.n)), block(make([]byte, p.n)), good[4+2*p.n:])
	case 5: // coordinates with their leading byte moved
		x = cat(block(good[2:1+p.n]), block(cat(good[1+p.n:2+p.n], good[4+p.n:4+2*p.n])), good[4+2*p.n:])
	case 6: // of the other curve
		q := ecdh[0]
		if p.n == 32 {
			q = ecdh[1]
		}
		x = generate(q.name, nil).XAKeyExchange
	}
	vx.Assert(derive(*owner, x, vx.Choose("as the device", 2) == 1, nil) == nil, "malformed ECDH parameters are refused")
}

var dh = []struct {
	name fs.KexSuiteName
	n    int
}{{fs.KEX_DHKEXid14, 256}, {fs.KEX_DHKEXid15, 384}}

func modulus(n int) *big.Int {
	h := "FFFFFFFFFFFFFFFFC90FDAA22168C234C4C6628B80DC1CD129024E088A67CC74020BBEA63B139B22514A08798E3404DDEF9519B3CD3A431B302B0A6DF25F14374FE1356D6D51C245E485B576625E7EC6F44C42E9A637ED6B0BFF5CB6F406B7EDEE386BFB5A899FA5AE9F24117C4B1FE649286651ECE45B3DC2007CB8A163BF0598DA48361C55D39A69163FA8FD24CF5F83655D23DCA3AD961C62F356208552BB9ED529077096966D670C354E4ABC9804F1746C08CA"
	if n == 256 {
		h += "18217C32905E462E36CE3BE39E772C180E86039B2783A2EC07A28FB5C55DF06F4C52C9DE2BCBF6955817183995497CEA956AE515D2261898FA051015728E5A8AACAA68FFFFFFFFFFFFFFFF"
	} else {
		h += "18217C32905E462E36CE3BE39E772C180E86039B2783A2EC07A28FB5C55DF06F4C52C9DE2BCBF6955817183995497CEA956AE515D2261898FA051015728E5A8AAAC42DAD33170D04507A33A85521ABDF1CBA64ECFB850458DBEF0A8AEA71575D060C7DB3970F85A6E1E4C7ABF5AE8CDB0933D71E8C94E04A25619DCEE3D2261AD2EE6BF12FFA06D98A0864D87602733EC86A64521F2B18177B200CBBE117577A615D6C770988C0BAD946E208E24FA074E5AB3143DB5BFCE0FD108E4B82D120A93AD2CAFFFFFFFFFFFFFFFF"
	}
	m, _ := new(big.Int).SetString(h, 16)
	return m
}

// Finite field Diffie-Hellman.
func H_dh() {
	p := dh[vx.Choose("suite", 2)]
	owner, device := generate(p.name, nil), generate(p.name, nil)
	vx.Assert(len(owner.XAKeyExchange) == p.n && len(device.XAKeyExchange) == p.n, "DH parameters have the length of the modulus")
	a := derive(stored(*owner), device.XAKeyExchange, false, nil)
	b := derive(*device, owner.XAKeyExchange, true, nil)
	same(a, b, "owner and device derive the same secret")
	vx.Assert(len(a.ShSe) == p.n && len(a.ContextRand) == 0, "the DH secret has the length of the modulus")
	var k fs.DHKexPrivateKey
	must(fs.CborCust.Unmarshal(owner.Private, &k), "the private key decodes")
	m := modulus(p.n)
	y := new(big.Int).SetBytes(device.XAKeyExchange)
	z := new(big.Int).Exp(y, new(big.Int).SetBytes(k.X), m)
	vx.Assert(vx.EqBytes(a.ShSe, z.FillBytes(make([]byte, p.n))), "the DH secret is the power of the other's parameter")
	g := new(big.Int).Exp(big.NewInt(2), new(big.Int).SetBytes(k.X), m)
	vx.Assert(vx.EqBytes(owner.XAKeyExchange, g.FillBytes(make([]byte, p.n))), "the DH parameter is the power of the generator")
}

// A shared value with leading zeros, and values that are not group elements.
func H_dh_values() {
	p := dh[vx.Choose("suite", 2)]
	m := modulus(p.n)
	owner := generate(p.name, nil)
	var x []byte
	ok := false
	switch vx.Choose("value", 6) {
	case 0:
		x = make([]byte, p.n)
	case 1:
		x = m.Bytes()
	case 2:
		x = new(big.Int).Add(m, big.NewInt(1)).Bytes()
	case 3:
		x = cat([]byte{1}, make([]byte, p.n))
	case 4:
		x = nil
	case 5: // small
		ok = true
		x = make([]byte, p.n)
		x[p.n-1] = byte(2 + vx.Choose("small", 3))
		owner.Private = vxf.Marshal(fs.NewDHKexPrivateKey([]byte{3}, []byte{8}, map[int]dhkx.GroupID{256: dhkx.DHKX_ID14, 384: dhkx.DHKX_ID15}[p.n]))
	}
	s := derive(*owner, x, vx.Choose("as the device", 2) == 1, nil)
	if !ok {
		vx.Assert(s == nil, "a value outside of the group is refused")
		return
	}
	v := int(x[p.n-1])
	vx.Assert(s != nil && len(s.ShSe) == p.n && int(s.ShSe[p.n-1]) == v*v*v%256 && s.ShSe[0] == 0, "a short DH secret is padded")
}

var asym = []struct {
	name fs.KexSuiteName
	n    int
	sg   fs.SgType
}{{fs.KEX_ASYMKEX2048, 32, fs.StRSA2048}, {fs.KEX_ASYMKEX3072, 96, fs.StRSA3072}}

// Asymmetric key exchange.
func H_asym() {
	p := asym[vx.Choose("suite", 2)]
	priv, pub := vxf.Key(p.sg)
	owner := generate(p.name, nil)
	vx.Assert(len(owner.XAKeyExchange) == p.n, "the owner random has the length of the suite")
	device := generate(p.name, &pub)
	vx.Assert(len(device.Private) == p.n, "the device random has the length of the suite")
	a := derive(stored(*owner), device.XAKeyExchange, false, priv)
	b := derive(*device, owner.XAKeyExchange, true, nil)
	same(a, b, "owner and device derive the same secret")
	vx.Assert(vx.EqBytes(a.ShSe, device.Private), "the secret is the device random")
	vx.Assert(vx.EqBytes(a.ContextRand, owner.XAKeyExchange), "the context is the owner random")
	r := priv.(*rsa.PrivateKey)
	vx.Assert(len(device.XAKeyExchange) == r.Size(), "the device parameter is encrypted")
}

func H_asym_malformed() {
	p := asym[vx.Choose("suite", 2)]
	priv, pub := vxf.Key(p.sg)
	owner := generate(p.name, nil)
	x := generate(p.name, &pub).XAKeyExchange
	switch vx.Choose("deviation", 6) {
	case 0:
		x = x[:vx.Choose("kept", 4)*(len(x)/4)]
	case 1:
		x = cat(x, vx.Bytes("more", 1))
	case 2:
		x = cat(x)
		d := vx.Byte("difference")
		vx.Assume(d != 0)
		x[vx.Choose("at", 4)*(len(x)/4)] ^= d
	case 3: // encrypted for another
		_, q := vxf.Key(p.sg)
		x = generate(p.name, &q).XAKeyExchange
	case 4: // an owner without RSA key
		priv, _ = vxf.Key(fs.StSECP256R1)
	case 5:
		priv = nil
	}
	vx.Assert(derive(*owner, x, false, priv) == nil, "malformed asymmetric parameters are refused")
}

// The device cannot encrypt for a key that is not RSA.
func H_asym_key() {
	p := asym[vx.Choose("suite", 2)]
	_, pub := vxf.Key([]fs.SgType{fs.StSECP256R1, fs.StSECP384R1}[vx.Choose("owner key type", 2)])
	if vx.Choose("no key", 2) == 1 {
		pub.PkBody = [][]byte{nil, {}, {0x30, 0}, vx.Bytes("key", 2)}[vx.Choose("key", 4)]
	} else if vx.Choose("other body", 2) == 1 {
		pub.PkBody = nil
	}
	var k *fs.KeXParams
	var err error
	crashed, _ := vx.Try(func() { k, err = fs.GenerateXABKeyExchange(p.name, &pub) })
	vx.Assert(!crashed && err != nil && k == nil, "an owner key that is not RSA is refused")
}

// Names of no suite.
func H_unknown_suite() {
	n := fs.KexSuiteName(string(vx.Bytes("suite", vx.Choose("suite name length", 12))))
	for _, s := range fs.KexSuitNames {
		vx.Assume(!vx.EqStr(string(n), string(s)))
	}
	var err error
	var k *fs.KeXParams
	crashed, _ := vx.Try(func() { k, err = fs.GenerateXABKeyExchange(n, nil) })
	vx.Assert(!crashed && err != nil && k == nil, "an unknown suite is refused")
	good := generate(fs.KEX_ECDH256, nil)
	good.KexSuit = n
	vx.Assert(derive(*good, good.XAKeyExchange, true, nil) == nil, "an unknown suite is refused")
}

// The key derivation function is that of SP 800-108 for every length in use.
func H_kdf() {
	alg := fs.HASH_HMAC_SHA256
	nf := func() hash.Hash { return sha256.New() }
	if vx.Choose("alg", 2) == 1 {
		alg, nf = fs.HASH_HMAC_SHA384, func() hash.Hash { return sha512.New384() }
	}
	n := []int{0, 1, 16, 31, 32, 33, 47, 48, 49, 64, 96, 97, 200, 8191, 8192}[vx.Choose("length", vx.Bound("lengths", 12, 13))]
	key := vx.Bytes("secret", vx.Choose("secret length", 4)*16)
	ctx := vx.Bytes("context", vx.Choose("context length", 3))
	got, err := fs.Sp800108CounterKDF(n, alg, key, ctx)
	must(err, "keys are derived")
	var want []byte
	for i := 1; len(want) < n; i++ {
		h := hmac.New(nf, key)
		h.Write(cat([]byte{byte(i)}, []byte("FIDO-KDF"), []byte{0}, []byte("AutomaticOnboardTunnel"), ctx, []byte{byte(n * 8 >> 8), byte(n * 8)}))
		want = append(want, h.Sum(nil)...)
	}
	vx.Assert(vx.EqBytes(got, want[:n]), "the derivation is that of SP 800-108")
}

func H_kdf_alg() {
	a := fs.HashType(int(vx.U32("alg")) - 1<<31)
	vx.Assume(a != fs.HASH_HMAC_SHA256 && a != fs.HASH_HMAC_SHA384)
	var err error
	crashed, _ := vx.Try(func() { _, err = fs.Sp800108CounterKDF(16, a, vx.Bytes("secret", 16), nil) })
	vx.Assert(!crashed && err != nil, "derivation with another algorithm is refused")
}

// Each suite derives as many bytes as its algorithms need.
func H_suite_lengths() {
	names := []fs.CipherSuiteName{1, 3, 30, 31, 32, 33, -17760703, -17760704, -17760705, -17760706}
	i := vx.Choose("suite", len(names))
	c, ok := fs.CipherSuitesInfoMap[names[i]]
	vx.Assert(ok, "a suite is listed")
	if i < 6 {
		vx.Assert(c.SevkLength == []int{16, 32, 16, 32, 16, 32}[i], "an AEAD suite derives a key of its cipher's length")
		return
	}
	vx.Assert(c.SekLen == []int{16, 16, 32, 32}[i-6] && c.SvkLen == []int{32, 32, 64, 64}[i-6], "an encrypt-then-MAC suite derives keys of its algorithms' lengths")
}

// Different secrets derive different keys.
func H_distinct() {
	vx.Option("short-digests", 1)
	n := 32
	a, b := vx.Bytes("secret", n), vx.Bytes("secret 2", n)
	vx.Assume(!vx.EqBytes(a, b))
	l := []int{16, 32, 48}[vx.Choose("length", 3)]
	ka, e1 := fs.Sp800108CounterKDF(l, fs.HASH_HMAC_SHA256, a, nil)
	kb, e2 := fs.Sp800108CounterKDF(l, fs.HASH_HMAC_SHA256, b, nil)
	vx.Assert(e1 == nil && e2 == nil && !vx.EqBytes(ka, kb), "different secrets derive different keys")
}
