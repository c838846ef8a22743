package main

import (
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
)

// Lengths around the block sizes of the hashes and the sizes of vouchers.
var longs = []int{55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 191, 255, 256, 257, 600, 1024, 1025, 4097}

// long is data of such a length with one byte at an end or in the middle free.
func long() ([]byte, int) {
	n := longs[vx.Choose("length", vx.Bound("long lengths", len(longs), len(longs)))]
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*7 + 3)
	}
	return d, []int{0, n / 2, n - 1}[vx.Choose("position", 3)]
}

// The digest of long data covers all of it.
func H_long() {
	alg := hashAlg()
	d, at := long()
	h, err := fs.GenerateFdoHash(d, alg)
	vx.Assert(err == nil && h.Type == alg, "a hash is generated for every supported algorithm")
	vx.Assert(vx.EqBytes(h.Hash, digest(d, alg)), "the generated hash is the digest of the data")
	vx.Assert(fs.VerifyHash(d, h) == nil, "verification accepts the generated hash")
	o := append([]byte{}, d...)
	o[at] = vx.Byte("other")
	vx.Assume(o[at] != d[at])
	vx.Assert(fs.VerifyHash(o, h) != nil, "the digest of other data is refused")
	vx.Assert(fs.VerifyHash(d[:len(d)-1], h) != nil, "the digest of other data is refused")
	vx.Assert(fs.VerifyHash(append(d[:len(d):len(d)], 0), h) != nil, "the digest of other data is refused")
}

// The HMAC of long data under a key of any usual length covers all of both.
func H_long_hmac() {
	alg := macAlg()
	d, at := long()
	key := make([]byte, []int{16, 32, 48, 64, 65, 128, 129, 200}[vx.Choose("key length", 8)])
	for i := range key {
		key[i] = byte(i*11 + 5)
	}
	h, err := fs.GenerateFdoHmac(d, alg, key)
	vx.Assert(err == nil && h.Type == alg, "an HMAC is generated for every supported algorithm")
	vx.Assert(vx.EqBytes(h.Hash, mac(d, key, alg)), "the generated HMAC is the HMAC of the data")
	vx.Assert(fs.VerifyHMac(d, h, key) == nil, "verification accepts the generated HMAC")
	if vx.Bool("key") {
		k := append([]byte{}, key...)
		p := []int{0, len(k) / 2, len(k) - 1}[vx.Choose("key position", 3)]
		k[p] = vx.Byte("other")
		vx.Assume(k[p] != key[p] && k[p] != 0)
		vx.Assert(fs.VerifyHMac(d, h, k) != nil, "an HMAC under another key is refused")
		return
	}
	o := append([]byte{}, d...)
	o[at] = vx.Byte("other")
	vx.Assume(o[at] != d[at])
	vx.Assert(fs.VerifyHMac(o, h, key) != nil, "the HMAC of other data is refused")
	vx.Assert(fs.VerifyHMac(d[:len(d)-1], h, key) != nil, "the HMAC of other data is refused")
}
