package main

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
)

const maxData = 40

func data() []byte {
	return vx.Bytes("data", vx.Choose("data length", vx.Bound("data length", 18, maxData)))
}

func digest(d []byte, alg fs.HashType) []byte {
	if alg == fs.HASH_SHA256 {
		x := sha256.Sum256(d)
		return x[:]
	}
	x := sha512.Sum384(d)
	return x[:]
}

func mac(d, key []byte, alg fs.HashType) []byte {
	h := hmac.New(sha256.New, key)
	if alg == fs.HASH_HMAC_SHA384 {
		h = hmac.New(sha512.New384, key)
	}
	h.Write(d)
	return h.Sum(nil)
}

func hashAlg() fs.HashType {
	return []fs.HashType{fs.HASH_SHA256, fs.HASH_SHA384}[vx.Choose("hash", 2)]
}
func macAlg() fs.HashType {
	return []fs.HashType{fs.HASH_HMAC_SHA256, fs.HASH_HMAC_SHA384}[vx.Choose("hmac", 2)]
}

func H_generate_hash() {
	d, alg := data(), hashAlg()
	keep := append([]byte{}, d...)
	h, err := fs.GenerateFdoHash(d, alg)
	vx.Assert(err == nil, "a hash is generated for every supported algorithm")
	vx.Assert(h.Type == alg, "the generated hash names its algorithm")
	vx.Assert(vx.EqBytes(h.Hash, digest(d, alg)), "the generated hash is the digest of the data")
	vx.Assert(fs.VerifyHash(d, h) == nil, "verification accepts the generated hash")
	vx.Assert(vx.EqBytes(d, keep), "hashing leaves the data alone")
}

func H_verify_hash() {
	d, alg := data(), hashAlg()
	n := vx.Choose("hash length", 4)
	v := vx.Bytes("hash", []int{32, 48, 31, 0}[n])
	err := fs.VerifyHash(d, fs.HashOrHmac{Type: alg, Hash: v})
	vx.Assert((err == nil) == vx.EqBytes(v, digest(d, alg)), "verification accepts exactly the digest of the data")
}

// The digest with any byte changed, truncated or extended is refused.
func H_altered_hash() {
	d, alg := data(), hashAlg()
	h, _ := fs.GenerateFdoHash(d, alg)
	x := append([]byte{}, h.Hash...)
	switch vx.Choose("change", 4) {
	case 0:
		diff := vx.Byte("difference")
		vx.Assume(diff != 0)
		x[vx.Choose("position", len(x))] ^= diff
	case 1:
		x = x[:vx.Choose("kept", len(x))]
	case 2:
		x = append(x, vx.Bytes("extra", 1+vx.Choose("extra", 2))...)
	case 3:
		other := fs.HASH_SHA256
		if alg == other {
			other = fs.HASH_SHA384
		}
		vx.Assert(fs.VerifyHash(d, fs.HashOrHmac{Type: other, Hash: x}) != nil, "a digest of another algorithm is refused")
		return
	}
	vx.Assert(fs.VerifyHash(d, fs.HashOrHmac{Type: alg, Hash: x}) != nil, "an altered digest is refused")
}

// A digest does not verify for other data.
func H_other_data() {
	alg := hashAlg()
	a, b := vx.Bytes("a", vx.Choose("a length", 5)), vx.Bytes("b", vx.Choose("b length", 5))
	vx.Assume(!vx.EqBytes(a, b))
	h, _ := fs.GenerateFdoHash(a, alg)
	vx.Assert(fs.VerifyHash(b, h) != nil, "the digest of other data is refused")
}

func H_generate_hmac() {
	d, alg := data(), macAlg()
	key := vx.Bytes("key", []int{32, 48, 0, 1, 64, 130}[vx.Choose("key length", 6)])
	keep := append([]byte{}, d...)
	h, err := fs.GenerateFdoHmac(d, alg, key)
	vx.Assert(err == nil, "an HMAC is generated for every supported algorithm")
	vx.Assert(h.Type == alg, "the generated HMAC names its algorithm")
	vx.Assert(vx.EqBytes(h.Hash, mac(d, key, alg)), "the generated HMAC is the HMAC of the data")
	vx.Assert(fs.VerifyHMac(d, h, key) == nil, "verification accepts the generated HMAC")
	vx.Assert(vx.EqBytes(d, keep), "HMACing leaves the data alone")
}

func H_verify_hmac() {
	d, alg := data(), macAlg()
	key := vx.Bytes("key", 32+16*vx.Choose("key length", 2))
	v := vx.Bytes("hmac", []int{32, 48, 31, 0}[vx.Choose("hmac length", 4)])
	err := fs.VerifyHMac(d, fs.HashOrHmac{Type: alg, Hash: v}, key)
	vx.Assert((err == nil) == vx.EqBytes(v, mac(d, key, alg)), "verification accepts exactly the HMAC of the data")
}

func H_altered_hmac() {
	d, alg := data(), macAlg()
	key := vx.Bytes("key", 32)
	h, _ := fs.GenerateFdoHmac(d, alg, key)
	x := append([]byte{}, h.Hash...)
	switch vx.Choose("change", 5) {
	case 0:
		diff := vx.Byte("difference")
		vx.Assume(diff != 0)
		x[vx.Choose("position", len(x))] ^= diff
	case 1:
		x = x[:vx.Choose("kept", len(x))]
	case 2:
		x = append(x, vx.Bytes("extra", 1+vx.Choose("extra", 2))...)
	case 3:
		other := fs.HASH_HMAC_SHA256
		if alg == other {
			other = fs.HASH_HMAC_SHA384
		}
		vx.Assert(fs.VerifyHMac(d, fs.HashOrHmac{Type: other, Hash: x}, key) != nil, "an HMAC of another algorithm is refused")
		return
	case 4:
		k2 := append([]byte{}, key...)
		diff := vx.Byte("difference")
		vx.Assume(diff != 0)
		k2[vx.Choose("position", len(k2))] ^= diff
		vx.Assert(fs.VerifyHMac(d, h, k2) != nil, "an HMAC under another key is refused")
		return
	}
	vx.Assert(fs.VerifyHMac(d, fs.HashOrHmac{Type: alg, Hash: x}, key) != nil, "an altered HMAC is refused")
}

func H_other_data_hmac() {
	alg := macAlg()
	a, b := vx.Bytes("a", vx.Choose("a length", 5)), vx.Bytes("b", vx.Choose("b length", 5))
	vx.Assume(!vx.EqBytes(a, b))
	key := vx.Bytes("key", 32)
	h, _ := fs.GenerateFdoHmac(a, alg, key)
	vx.Assert(fs.VerifyHMac(b, h, key) != nil, "the HMAC of other data is refused")
}

// An algorithm that is unknown or of the other kind is an error everywhere.
func H_wrong_algorithm() {
	alg := fs.HashType(vx.Int("algorithm", -70000, 70000))
	d := vx.Bytes("data", 3)
	v := vx.Bytes("value", []int{32, 48, 0}[vx.Choose("length", 3)])
	key := vx.Bytes("key", 32)
	isH := vx.Or(alg == fs.HASH_SHA256, alg == fs.HASH_SHA384)
	isM := vx.Or(alg == fs.HASH_HMAC_SHA256, alg == fs.HASH_HMAC_SHA384)
	if !isH {
		_, err := fs.GenerateFdoHash(d, alg)
		vx.Assert(err != nil, "no hash is generated for an algorithm that is not a hash")
		vx.Assert(fs.VerifyHash(d, fs.HashOrHmac{Type: alg, Hash: v}) != nil, "no hash is accepted with an algorithm that is not a hash")
	}
	if !isM {
		_, err := fs.GenerateFdoHmac(d, alg, key)
		vx.Assert(err != nil, "no HMAC is generated for an algorithm that is not an HMAC")
		vx.Assert(fs.VerifyHMac(d, fs.HashOrHmac{Type: alg, Hash: v}, key) != nil, "no HMAC is accepted with an algorithm that is not an HMAC")
	}
}

// Fresh HMAC keys have the digest size, two of them are drawn independently.
func H_key() {
	alg := macAlg()
	k := fs.NewHmacKey(alg)
	n := 32
	if alg == fs.HASH_HMAC_SHA384 {
		n = 48
	}
	vx.Assert(len(k) == n, "an HMAC key has the digest size")
	vx.Expect("two keys differ")
	if !vx.EqBytes(k, fs.NewHmacKey(alg)) {
		vx.Reach("two keys differ")
	}
	vx.Assert(fs.HmacToHashAlg[alg] == map[fs.HashType]fs.HashType{fs.HASH_HMAC_SHA256: fs.HASH_SHA256, fs.HASH_HMAC_SHA384: fs.HASH_SHA384}[alg], "each HMAC maps to its hash")
}
