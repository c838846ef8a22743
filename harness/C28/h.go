package main

import (
	"crypto"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
)

var p256 = fs.HashHmacTypes{HashType: fs.HASH_SHA256, HmacType: fs.HASH_HMAC_SHA256}
var p384 = fs.HashHmacTypes{HashType: fs.HASH_SHA384, HmacType: fs.HASH_HMAC_SHA384}

// The FDO 1.1 table (3.3.2 hash and HMAC types): device type, owner type, result.
var table = []struct {
	dev, own fs.SgType
	want     fs.HashHmacTypes
}{
	{fs.StSECP256R1, fs.StRSA2048, p256}, {fs.StSECP384R1, fs.StRSA2048, p384}, {fs.StEPID10, fs.StRSA2048, p256}, {fs.StEPID11, fs.StRSA2048, p256},
	{fs.StSECP256R1, fs.StRSA3072, p256}, {fs.StSECP384R1, fs.StRSA3072, p384}, {fs.StEPID10, fs.StRSA3072, p256}, {fs.StEPID11, fs.StRSA3072, p256},
	{fs.StSECP256R1, fs.StSECP256R1, p256}, {fs.StSECP384R1, fs.StSECP256R1, p384}, {fs.StEPID10, fs.StSECP256R1, p256}, {fs.StEPID11, fs.StSECP256R1, p256},
	{fs.StSECP256R1, fs.StSECP384R1, p384}, {fs.StSECP384R1, fs.StSECP384R1, p384}, {fs.StEPID10, fs.StSECP384R1, p384}, {fs.StEPID11, fs.StSECP384R1, p384},
}

func H_table() {
	r := table[vx.Choose("row", len(table))]
	g := fs.NegotiateHashHmacTypes(r.dev, r.own)
	vx.Assert(g == r.want, "the negotiated algorithms are those of the FDO table")
}

// Whatever the types, the result is one of the two defined pairs.
func H_defined() {
	d, o := fs.SgType(vx.Int("device", -1000, 1000)), fs.SgType(vx.Int("owner", -1000, 1000))
	g := fs.NegotiateHashHmacTypes(d, o)
	a := vx.And(g.HashType == fs.HASH_SHA256, g.HmacType == fs.HASH_HMAC_SHA256)
	b := vx.And(g.HashType == fs.HASH_SHA384, g.HmacType == fs.HASH_HMAC_SHA384)
	vx.Assert(vx.Or(a, b), "negotiation yields a defined hash with its HMAC")
	vx.Assert(vx.Implies(vx.Or(d == fs.StSECP384R1, o == fs.StSECP384R1), b), "P-384 on either side needs SHA-384")
}

// The signature type tables agree with each other and with COSE/FDO.
func H_signature_tables() {
	sgs := []fs.SgType{fs.StSECP256R1, fs.StSECP384R1, fs.StRSA2048, fs.StRSA3072}
	iana := []int{-7, -35, -257, -258}
	pks := []fs.FdoPkType{fs.SECP256R1, fs.SECP384R1, fs.RSA2048RESTR, fs.RSAPKCS}
	pkn := []int{10, 11, 1, 5}
	hh := []fs.HashHmacTypes{p256, p384, p256, p384}
	kex := []fs.KexSuiteName{fs.KEX_ECDH256, fs.KEX_ECDH384, fs.KEX_DHKEXid14, fs.KEX_DHKEXid15}
	att := []fs.SgType{fs.StSECP256R1, fs.StSECP384R1, fs.StSECP256R1, fs.StSECP384R1}
	i := vx.Choose("type", len(sgs))
	vx.Assert(int(sgs[i]) == iana[i], "signature types have their COSE numbers")
	vx.Assert(int(pks[i]) == pkn[i], "key types have their FDO numbers")
	vx.Assert(fs.SgTypeToFdoPkType[sgs[i]] == pks[i], "each signature type maps to its key type")
	vx.Assert(fs.PkToSgType[pks[i]] == sgs[i], "each key type maps back to its signature type")
	vx.Assert(fs.SgToHashHmacMap[sgs[i]] == hh[i], "each signature type maps to its hash and HMAC")
	vx.Assert(fs.SgTypeToKexSuitName[sgs[i]] == kex[i], "each signature type maps to its key exchange")
	vx.Assert(fs.SgType_OwnerToDeviceAttestation[sgs[i]] == att[i], "each owner type maps to a device type of its strength")
	vx.Assert(fs.SigInfo{SgType: sgs[i]}.IsValid(), "each listed signature type is valid")
	g, err := fs.GetDeviceSgType(pks[i], hh[i].HashType)
	vx.Assert(err == nil && g == sgs[i], "key type and hash name the signature type")
	in := false
	for _, s := range fs.SgTypeList {
		in = in || s == sgs[i]
	}
	vx.Assert(in && len(fs.SgTypeList) == 4, "the list of signature types holds exactly the supported ones")
	for _, s := range fs.DeviceSgTypeList {
		vx.Assert(s == fs.StSECP256R1 || s == fs.StSECP384R1, "device signature types are the EC ones")
	}
}

func H_device_sg_type() {
	pk := fs.FdoPkType(vx.Byte("key type"))
	h := fs.HashType(vx.Int("hash", -50, 10))
	g, err := fs.GetDeviceSgType(pk, h)
	rsa := vx.Or(vx.Or(pk == fs.RSA2048RESTR, pk == fs.RSAPKCS), pk == fs.RSAPSS)
	h2, h3 := h == fs.HASH_SHA256, h == fs.HASH_SHA384
	ec := vx.Or(pk == fs.SECP256R1, pk == fs.SECP384R1)
	vx.Assert((err == nil) == vx.Or(ec, vx.And(rsa, vx.Or(h2, h3))), "exactly the supported key types and hashes name a signature type")
	if err == nil {
		vx.Assert(vx.Implies(pk == fs.SECP256R1, g == fs.StSECP256R1), "P-256 keys sign ES256")
		vx.Assert(vx.Implies(pk == fs.SECP384R1, g == fs.StSECP384R1), "P-384 keys sign ES384")
		vx.Assert(vx.Implies(vx.And(rsa, h2), g == fs.StRSA2048), "RSA with SHA-256 is RS256")
		vx.Assert(vx.Implies(vx.And(rsa, h3), g == fs.StRSA3072), "RSA with SHA-384 is RS384")
	}
}

func H_sig_info() {
	s := fs.SgType(vx.Int("type", -400, 200))
	ok := fs.SigInfo{SgType: s}.IsValid()
	known := vx.Or(vx.Or(vx.Or(s == -7, s == -35), vx.Or(s == -257, s == -258)), vx.Or(s == 90, s == 91))
	vx.Assert(ok == known, "exactly the defined signature types are valid")
	a := fs.SigInfo{SgType: s, Info: vx.Bytes("info a", vx.Choose("len a", 3))}
	b := fs.SigInfo{SgType: fs.SgType(vx.Int("other type", -400, 200)), Info: vx.Bytes("info b", vx.Choose("len b", 3))}
	vx.Assert((a.Equal(b) == nil) == vx.And(a.SgType == b.SgType, vx.EqBytes(a.Info, b.Info)), "signature infos are equal exactly when type and info are")
}

// Cipher suite parameters: COSE/FDO numbers and sizes.
var suites = []struct {
	id                  fs.CipherSuiteName
	num, sek, svk, sevk int
	nonce, tag          int
	implemented         bool
}{
	{fs.CIPHER_A128GCM, 1, 0, 0, 16, 12, 0, true},
	{fs.CIPHER_A256GCM, 3, 0, 0, 32, 12, 0, true},
	{fs.CIPHER_AES_CCM_16_128_128, 30, 0, 0, 16, 13, 16, true},
	{fs.CIPHER_AES_CCM_16_128_256, 31, 0, 0, 32, 13, 16, true},
	{fs.CIPHER_AES_CCM_64_128_128, 32, 0, 0, 16, 7, 16, true},
	{fs.CIPHER_AES_CCM_64_128_256, 33, 0, 0, 32, 7, 16, true},
	{fs.CIPHER_COSE_AES128_CTR, -17760704, 16, 32, 0, 16, 0, true},
	{fs.CIPHER_COSE_AES128_CBC, -17760703, 16, 32, 0, 16, 0, false},
	{fs.CIPHER_COSE_AES256_CTR, -17760706, 32, 64, 0, 16, 0, false},
	{fs.CIPHER_COSE_AES256_CBC, -17760705, 32, 64, 0, 16, 0, false},
}

func H_cipher_suites() {
	s := suites[vx.Choose("suite", len(suites))]
	i, ok := fs.CipherSuitesInfoMap[s.id]
	vx.Assert(ok && int(s.id) == s.num && i.CryptoAlg == s.id, "each suite is listed under its own number")
	vx.Assert(i.SekLen == s.sek && i.SvkLen == s.svk && i.SevkLength == s.sevk, "each suite has the key lengths of its algorithm")
	vx.Assert(i.NonceIvLen == s.nonce, "each suite has the nonce or IV length of its algorithm")
	vx.Assert(i.TagSize == s.tag, "each CCM suite has its tag length")
	vx.Assert(fs.HmacToHashAlg[i.HmacAlg] == i.HashAlg && i.HashAlg != 0, "each suite names a hash with its HMAC")
	vx.Assert(len(fs.CipherSuitesInfoMap) == len(suites), "no suite beyond the known ones is listed")
	key := fs.SessionKeyInfo{ShSe: vx.Bytes("secret", 32), ContextRand: vx.Bytes("context", 4)}
	var out []byte
	var err error
	p, _ := vx.Try(func() { out, err = fs.AddEncryptionWrapping(vx.Bytes("payload", 5), key, s.id) })
	vx.Assert(!p, "wrapping never crashes")
	if s.implemented {
		vx.Assert(err == nil && len(out) > 0, "each implemented suite wraps")
	} else {
		vx.Assert(err != nil && len(out) == 0, "a suite without implementation is refused")
	}
}

// A suite number outside the list is refused.
func H_unknown_suite() {
	id := fs.CipherSuiteName(vx.Int("suite", -20, 60))
	for _, s := range suites {
		vx.Assume(id != s.id)
	}
	key := fs.SessionKeyInfo{ShSe: vx.Bytes("secret", 32), ContextRand: []byte{}}
	_, err := fs.AddEncryptionWrapping([]byte{1, 2}, key, id)
	vx.Assert(err != nil, "wrapping under an unknown suite is refused")
	_, err = fs.RemoveEncryptionWrapping([]byte{0x83, 0x41, 0xa0, 0xa0, 0x40}, key, id)
	vx.Assert(err != nil, "unwrapping under an unknown suite is refused")
}

// Every listed key exchange has an implementation, an unlisted one is refused.
func H_kex() {
	names := []string{"ECDH256", "ECDH384", "DHKEXid14", "DHKEXid15", "ASYMKEX2048", "ASYMKEX3072", "ECDH521", "", "ecdh256"}
	i := vx.Choose("suite", len(names))
	if i < 6 {
		vx.Assert(string(fs.KexSuitNames[i]) == names[i], "the listed key exchanges are the FDO ones")
	}
	k, err := fs.GenerateXABKeyExchange(fs.KexSuiteName(names[i]), nil)
	vx.Assert((err == nil) == (i < 6), "exactly the listed key exchanges are implemented")
	if err == nil {
		vx.Assert(string(k.KexSuit) == names[i] && len(k.XAKeyExchange) > 0, "the parameters name their suite")
	}
}

func H_cose_hashes() {
	want := []struct {
		a fs.CoseAlg
		n int
		h crypto.Hash
	}{{fs.CA_PKCS1_SHA256, -257, crypto.SHA256}, {fs.CA_PKCS1_SHA384, -258, crypto.SHA384}, {fs.CA_PKCS1_SHA512, -259, crypto.SHA512},
		{fs.CA_PSS_SHA256, -3, 0}, {fs.CA_P256, 1, crypto.SHA256}, {fs.CA_P384, 2, crypto.SHA384}, {fs.CA_P521, 3, crypto.SHA512}}
	w := want[vx.Choose("alg", len(want))]
	vx.Assert(w.a == fs.CoseAlg(w.n), "COSE algorithms have their numbers")
	vx.Assert(w.h == 0 || fs.CoseAlgToHash[w.a] == w.h, "COSE algorithms map to their hash")
}
