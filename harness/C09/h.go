package main

import (
	"crypto/aes"
	"crypto/cipher"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/ccm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
)

// refCCM is RFC 3610 written from its text: CBC-MAC over B_0, encoded adata, plaintext; CTR.
func refParts(b cipher.Block, m, l int, nonce, adata []byte) (b0 func(n int) []byte, ctr func(i int) []byte, aenc []byte) {
	b0 = func(n int) []byte {
		x := make([]byte, 16)
		f := 8*((m-2)/2) + (l - 1)
		if len(adata) > 0 {
			f += 64
		}
		x[0] = byte(f)
		for i := range nonce {
			x[1+i] = nonce[i]
		}
		for i := 0; i < l && i < 8; i++ {
			x[15-i] = byte(uint64(n) >> (8 * uint(i)))
		}
		return x
	}
	ctr = func(i int) []byte {
		x := make([]byte, 16)
		x[0] = byte(l - 1)
		for k := range nonce {
			x[1+k] = nonce[k]
		}
		for k := 0; k < l && k < 8; k++ {
			x[15-k] = byte(uint64(i) >> (8 * uint(k)))
		}
		o := make([]byte, 16)
		b.Encrypt(o, x)
		return o
	}
	n := len(adata)
	switch {
	case n == 0:
	case n < 0xff00:
		aenc = append(aenc, byte(n>>8), byte(n))
	default:
		aenc = append(aenc, 0xff, 0xfe, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	aenc = append(aenc, adata...)
	for len(aenc)%16 != 0 {
		aenc = append(aenc, 0)
	}
	return
}

func refMac(b cipher.Block, x0, aenc, p []byte) []byte {
	x := make([]byte, 16)
	b.Encrypt(x, x0)
	round := func(blk []byte) {
		y := make([]byte, 16)
		for i := range y {
			y[i] = x[i]
			if i < len(blk) {
				y[i] ^= blk[i]
			}
		}
		b.Encrypt(x, y)
	}
	for i := 0; i < len(aenc); i += 16 {
		round(aenc[i : i+16])
	}
	for i := 0; i < len(p); i += 16 {
		e := i + 16
		if e > len(p) {
			e = len(p)
		}
		round(p[i:e])
	}
	return x
}

func refXor(ctr func(int) []byte, p []byte) []byte {
	out := make([]byte, len(p))
	for i := 0; i < len(p); i += 16 {
		s := ctr(i/16 + 1)
		for k := 0; k < 16 && i+k < len(p); k++ {
			out[i+k] = p[i+k] ^ s[k]
		}
	}
	return out
}

func refTag(b cipher.Block, m, l int, nonce, adata, p []byte) []byte {
	b0, ctr, aenc := refParts(b, m, l, nonce, adata)
	t := refMac(b, b0(len(p)), aenc, p)
	s0 := ctr(0)
	out := make([]byte, m)
	for i := range out {
		out[i] = t[i] ^ s0[i]
	}
	return out
}

func refSeal(b cipher.Block, m, l int, nonce, adata, p []byte) []byte {
	_, ctr, _ := refParts(b, m, l, nonce, adata)
	return append(refXor(ctr, p), refTag(b, m, l, nonce, adata, p)...)
}

func refOpen(b cipher.Block, m, l int, nonce, adata, c []byte) (p []byte, ok bool) {
	if len(c) < m {
		return nil, false
	}
	_, ctr, _ := refParts(b, m, l, nonce, adata)
	body := c[:len(c)-m]
	p = refXor(ctr, body)
	return p, vx.EqBytes(c[len(c)-m:], refTag(b, m, l, nonce, adata, p))
}

func block(n int) cipher.Block {
	b, err := aes.NewCipher(vx.Bytes("key", n))
	vx.Assert(err == nil && b != nil, "key length accepted")
	return b
}

var plens = []int{0, 1, 15, 16, 17, 33, 32, 40, 48, 64, 65}
var alens = []int{0, 1, 13, 14, 15, 30, 31, 16, 46, 47}

func params() (b cipher.Block, m, l, nn int, c ccm.CCM) {
	vx.Option("real-ccm", 1)
	k := 16
	m = 4 + 2*vx.Choose("tag", 7)
	nn = 7 + vx.Choose("nonce", 7)
	if (m+nn)%2 == 1 {
		k = 32
	}
	b = block(k)
	c, err := ccm.NewCCM(b, m, nn)
	vx.Assert(err == nil, "NewCCM accepts every tag and nonce length of RFC 3610")
	vx.Assert(c.NonceSize() == nn, "NonceSize is the nonce length asked for")
	vx.Assert(c.Overhead() == m, "Overhead is the tag length asked for")
	return b, m, 15 - nn, nn, c
}

// Seal yields the RFC 3610 ciphertext, Open gives back the plaintext.
func H_seal_open() {
	b, m, l, nn, c := params()
	pl := plens[vx.Choose("plaintext", vx.Bound("plaintext lengths tried of 0 1 15 16 17 33 32 40 48 64 65", 6, len(plens)))]
	al := alens[vx.Choose("adata", vx.Bound("adata lengths tried of 0 1 13 14 15 30 31 16 46 47", 6, len(alens)))]
	nonce, ad, p := vx.Bytes("nonce", nn), vx.Bytes("adata", al), vx.Bytes("plaintext", pl)
	keepN, keepA, keepP := append([]byte{}, nonce...), append([]byte{}, ad...), append([]byte{}, p...)
	ct := c.Seal(nil, nonce, p, ad)
	want := refSeal(b, m, l, keepN, keepA, keepP)
	vx.Assert(len(ct) == len(want), "sealed length is plaintext plus tag")
	vx.Assert(vx.EqBytes(ct, want), "sealed output is the RFC 3610 ciphertext and tag")
	vx.Assert(vx.And(vx.EqBytes(nonce, keepN), vx.And(vx.EqBytes(ad, keepA), vx.EqBytes(p, keepP))), "Seal leaves its inputs alone")
	keepC := append([]byte{}, ct...)
	q, err := c.Open(nil, nonce, ct, ad)
	vx.Assert(err == nil, "Open accepts a sealed message")
	vx.Assert(vx.EqBytes(q, keepP), "Open returns the plaintext")
	vx.Assert(vx.EqBytes(ct, keepC), "Open leaves the sealed message alone")
}

// Appending to a destination keeps what was there.
func H_append() {
	b, m, l, nn, c := params()
	nonce, ad, p := vx.Bytes("nonce", nn), vx.Bytes("adata", 3), vx.Bytes("plaintext", 5)
	pre := vx.Bytes("prefix", 3)
	room := vx.Choose("room", 2) * 64
	dst := make([]byte, 3, 3+room)
	copy(dst, pre)
	want := refSeal(b, m, l, nonce, ad, p)
	out := c.Seal(dst, nonce, p, ad)
	vx.Assert(len(out) == 3+len(want), "Seal appends exactly the sealed message")
	vx.Assert(vx.And(vx.EqBytes(out[:3], pre), vx.EqBytes(out[3:], want)), "Seal appends to its destination")
	q, err := c.Open(append([]byte{}, pre...), nonce, out[3:], ad)
	vx.Assert(err == nil && len(q) == 8, "Open appends exactly the plaintext")
	vx.Assert(vx.And(vx.EqBytes(q[:3], pre), vx.EqBytes(q[3:], p)), "Open appends to its destination")
}

// Open accepts a message exactly when its tag is the RFC 3610 tag of what it decrypts to.
func H_open_any() {
	b, m, l, nn, c := params()
	pl := plens[vx.Choose("length", 4)]
	al := alens[vx.Choose("adata", 3)]
	nonce, ad := vx.Bytes("nonce", nn), vx.Bytes("adata", al)
	ct := vx.Bytes("ciphertext", pl+m)
	q, err := c.Open(nil, nonce, ct, ad)
	p, ok := refOpen(b, m, l, nonce, ad, ct)
	vx.Assert((err == nil) == ok, "Open accepts exactly the messages with the RFC 3610 tag")
	if err == nil {
		vx.Assert(vx.EqBytes(q, p), "Open returns the RFC 3610 plaintext")
	} else {
		vx.Assert(len(q) == 0, "Open returns nothing on failure")
	}
}

// A change of any single byte of ciphertext, tag, nonce or adata makes Open fail.
func H_tamper() {
	vx.Option("real-ccm", 1)
	m := 4 + 2*vx.Choose("tag", 7)
	nn := 7 + 3*vx.Choose("nonce", 3)
	b, _ := aes.NewCipher([]byte("0123456789abcdef"))
	c, err := ccm.NewCCM(b, m, nn)
	vx.Assert(err == nil, "NewCCM accepts every tag and nonce length of RFC 3610")
	nonce, ad, p := []byte("ABCDEFGHIJKLM")[:nn], []byte("some associated data"), []byte("seventeen bytes !")
	ct := c.Seal(nil, nonce, p, ad)
	bit := byte(1) << uint(vx.Choose("bit", 8))
	part := vx.Choose("part", 3)
	tgt := [][]byte{ct, nonce, ad}[part]
	tgt[vx.Choose("position", len(tgt))] ^= bit
	q, err := c.Open(nil, nonce, ct, ad)
	vx.Assert(err != nil && len(q) == 0, "Open refuses a message with any bit changed")
}

// Truncated messages and lengths of the nonce other than the configured are refused.
func H_lengths() {
	b, m, _, nn, c := params()
	_ = b
	n := vx.Choose("length", 20)
	vx.Assume(n < m)
	_, err := c.Open(nil, vx.Bytes("nonce", nn), vx.Bytes("ciphertext", n), nil)
	vx.Assert(err != nil, "Open refuses a message shorter than the tag")
}

func H_nonce_length() {
	_, m, _, nn, c := params()
	k := vx.Choose("given nonce length", 17)
	vx.Assume(k != nn)
	var q []byte
	var err error
	p, _ := vx.Try(func() { q, err = c.Open(nil, vx.Bytes("nonce", k), vx.Bytes("ciphertext", m+2), nil) })
	vx.Assert(!p, "Open does not crash on a nonce of another length")
	vx.Assert(err != nil && len(q) == 0, "Open refuses a nonce of another length")
	p, _ = vx.Try(func() { q = c.Seal(nil, vx.Bytes("nonce", k), []byte{1}, nil) })
	vx.Assert(p, "Seal refuses a nonce of another length")
}

func H_config() {
	vx.Option("real-ccm", 1)
	b := block(16)
	m, nn := vx.Int("tag", -3, 40), vx.Int("nonce", -3, 40)
	okM := vx.And(vx.And(m >= 4, m <= 16), m&1 == 0)
	okN := vx.And(nn >= 7, nn <= 13)
	c, err := ccm.NewCCM(b, m, nn)
	vx.Assert((err == nil) == (vx.And(okM, okN)), "NewCCM accepts exactly the tag and nonce lengths of RFC 3610")
	if err == nil {
		l := 15 - c.NonceSize()
		vx.Assert(c.NonceSize() == nn && c.Overhead() == m, "the configured lengths are kept")
		max := c.MaxLength()
		if l < 7 {
			vx.Assert(uint64(max) == uint64(1)<<(8*uint(l))-1, "MaxLength is what the length field can hold")
		} else {
			vx.Assert(max > 1<<40, "MaxLength is what the length field can hold")
		}
	}
}

// A plaintext longer than the length field (L=2: 65535 bytes) is refused, the longest is not.
func H_too_long() {
	vx.Option("real-ccm", 1)
	b, _ := aes.NewCipher([]byte("0123456789abcdef"))
	c, _ := ccm.NewCCM(b, 8, 13)
	over := vx.Choose("over", 2)
	n := 65535 + over
	var ct []byte
	p, _ := vx.Try(func() { ct = c.Seal(nil, []byte("ABCDEFGHIJKLM"), make([]byte, n), nil) })
	vx.Assert(p == (over == 1), "Seal refuses exactly a plaintext longer than the length field permits")
	if over == 1 {
		_, err := c.Open(nil, []byte("ABCDEFGHIJKLM"), make([]byte, n+8), nil)
		vx.Assert(err != nil, "Open refuses a message longer than the length field permits")
		return
	}
	vx.Assert(len(ct) == n+8, "the longest plaintext is sealed")
}

// Associated data of 0xff00 bytes and more uses the six byte length encoding.
func H_long_adata() {
	vx.Option("real-ccm", 1)
	b, _ := aes.NewCipher([]byte("0123456789abcdef"))
	c, _ := ccm.NewCCM(b, 8, 13)
	n := []int{0xfeff, 0xff00, 0x10000, 0x12345}[vx.Choose("adata length", vx.Bound("adata lengths around 0xff00", 4, 4))]
	ad := make([]byte, n)
	ad[0], ad[n-1] = 7, 9
	ct := c.Seal(nil, []byte("ABCDEFGHIJKLM"), []byte("abc"), ad)
	want := refSeal(b, 8, 2, []byte("ABCDEFGHIJKLM"), ad, []byte("abc"))
	vx.Assert(vx.EqBytes(ct, want), "long associated data is authenticated as RFC 3610 encodes it")
}
