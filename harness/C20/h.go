package main

import (
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
)

// H_buffer: a fuzzed buffer.
func H_buffer() {
	in := vx.Bytes("buffer", vx.Choose("buffer length", vx.Bound("buffer bytes", 10, 40)))
	was := append([]byte{}, in...)
	out := fs.Conf_RandomCborBufferFuzzing(in)
	vx.Assert(!vx.EqBytes(out, was), "a fuzzed buffer differs")
	vx.Assert(vx.EqBytes(in, was), "fuzzing leaves the original alone")
}

var negligible = "random byte strings of 5 bytes and more are fixed representatives, they do not hit the value they replace"

// H_hash: a fuzzed hash or HMAC.
func H_hash() {
	vx.Option("concrete-rand", 1)
	vx.Assumption(negligible)
	vx.Option("short-rands", 4)
	alg := []fs.HashType{fs.HASH_SHA256, fs.HASH_SHA384, fs.HASH_HMAC_SHA256, fs.HASH_HMAC_SHA384}[vx.Choose("alg", 4)]
	data := []byte("some data")
	key := []byte("0123456789abcdef")
	var h fs.HashOrHmac
	var err error
	mac := alg == fs.HASH_HMAC_SHA256 || alg == fs.HASH_HMAC_SHA384
	if mac {
		h, err = fs.GenerateFdoHmac(data, alg, key)
	} else {
		h, err = fs.GenerateFdoHash(data, alg)
	}
	vx.Assert(err == nil, "a hash is computed")
	was := append([]byte{}, h.Hash...)
	out := fs.Conf_RandomTestHashHmac(h, data, key)
	if mac {
		err = fs.VerifyHMac(data, *out, key)
	} else {
		err = fs.VerifyHash(data, *out)
	}
	vx.Assert(err != nil, "a fuzzed hash does not verify")
	vx.Assert(out.Type != alg || !vx.EqBytes(out.Hash, was), "a fuzzed hash differs")
	vx.Assert(vx.EqBytes(h.Hash, was) && h.Type == alg, "fuzzing leaves the original alone")
}

// H_signature: a fuzzed signed message.
func H_signature() {
	vx.Option("concrete-rand", 1)
	vx.Assumption(negligible)
	vx.Option("short-rands", 4)
	i := vx.Choose("signature type", len(vxf.SgTypes))
	sg := vxf.SgTypes[i]
	priv, pub := vxf.Key(sg)
	var u fs.UnprotectedHeader
	kind := vx.Choose("unprotected header", 3)
	n := fs.FdoNonce{1}
	switch kind {
	case 1:
		u.EUPHNonce = &n
	case 2:
		u.CUPHNonce, u.CUPHOwnerPubKey = &n, &pub
	}
	payload := vx.Bytes("payload", vx.Choose("payload length", vx.Bound("payload bytes", 4, 12)))
	s, err := fs.GenerateCoseSignature(payload, fs.ProtectedHeader{Alg: fs.GetIntRef(int(sg))}, u, priv, sg)
	vx.Assert(err == nil, "a message is signed")
	vx.Assert(fs.VerifyCoseSignature(*s, pub) == nil, "a signed message verifies")
	out := fs.Conf_Fuzz_CoseSignature(*s)
	ok := fs.VerifyCoseSignature(out, pub) == nil
	o := out.Unprotected
	lost := kind == 1 && o.EUPHNonce == nil || kind == 2 && (o.CUPHNonce == nil || o.CUPHOwnerPubKey == nil)
	vx.Assert(!ok || lost, "a fuzzed signed message does not verify or has lost its unprotected header")
	vx.Assert(fs.VerifyCoseSignature(*s, pub) == nil, "fuzzing leaves the original alone")
	if ok {
		vx.Reach("header lost")
	} else {
		vx.Reach("broken")
	}
}

// H_wrapping: a fuzzed encrypted message.
func H_wrapping() {
	vx.Option("concrete-rand", 1)
	vx.Assumption(negligible)
	vx.Option("short-rands", 4)
	suite := []fs.CipherSuiteName{1, 3, 30, 31, 32, 33, -17760704}[vx.Choose("suite", 7)]
	key := fs.SessionKeyInfo{ShSe: []byte("a shared secret"), ContextRand: []byte{}}
	payload := []byte("the payload of a message")[:vx.Choose("payload length", vx.Bound("payload bytes", 5, 24))]
	w, err := fs.AddEncryptionWrapping(payload, key, suite)
	vx.Assert(err == nil, "a message is encrypted")
	_, err = fs.RemoveEncryptionWrapping(w, key, suite)
	vx.Assert(err == nil, "an encrypted message decrypts")
	out, err := fs.Conf_Fuzz_AddWrapping(payload, key, suite)
	vx.Assert(err == nil, "every suite's encryption can be fuzzed")
	_, err = fs.RemoveEncryptionWrapping(out, key, suite)
	vx.Assert(err != nil, "a fuzzed encryption does not decrypt")
}

// H_types: another algorithm, key or signature type.
func H_types() {
	vx.Option("max-decisions", 14)
	switch vx.Choose("helper", 5) {
	case 0:
		sg := append([]fs.SgType{}, fs.SgTypeList...)[vx.Choose("signature type", len(fs.SgTypeList))]
		vx.Assert(fs.Conf_NewRandomSgTypeExcept(sg) != sg, "another signature type is another one")
	case 1:
		sg := fs.SgTypeList[vx.Choose("signature type", len(fs.SgTypeList))]
		info := vx.Bytes("info", vx.Choose("info length", 3))
		out := fs.Conf_RandomTestFuzzSigInfo(fs.SigInfo{SgType: sg, Info: info})
		vx.Assert(!out.IsValid(), "a fuzzed signature info is not valid")
		for _, s := range fs.SgTypeList {
			vx.Assert(out.SgType != s, "a fuzzed signature info names no known signature type")
		}
	case 2:
		h := fs.HashType(vx.Int("hash type", -50, 50))
		out := fs.Conf_NewRandomHashHmacAlgExcept(h)
		vx.Assert(out != h, "another hash algorithm is another one")
	case 3:
		pk := fs.FdoPkType_List[vx.Choose("key type", len(fs.FdoPkType_List))]
		enc := fs.FdoPkEnc_List[vx.Choose("key encoding", len(fs.FdoPkEnc_List))]
		vx.Assert(fs.Conf_NewRandomFdoPkTypeExcept(pk) != pk, "another key type is another one")
		vx.Assert(fs.Conf_NewRandomFdoPkEncExcept(enc) != enc, "another key encoding is another one")
	case 4:
		vx.Option("concrete-rand", 2)
		pk := fs.FdoPkType_List[vx.Choose("key type", len(fs.FdoPkType_List))]
		enc := fs.FdoPkEnc_List[vx.Choose("key encoding", len(fs.FdoPkEnc_List))]
		out := fs.Conf_RandomTestFuzzPublicKey(fs.FdoPublicKey{PkType: pk, PkEnc: enc, PkBody: []byte{1}})
		vx.Assert(out.PkType != pk && out.PkEnc != enc, "a fuzzed public key differs")
	}
}
