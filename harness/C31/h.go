package main

import (
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/x509"
	"encoding/pem"
	"os"
	"strings"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device"
	fdodocommon "github.com/fido-alliance/iot-fdo-conformance-tools/core/device/common"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/fdomain"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

func guid(b byte) (g fs.FdoGuid) {
	for i := range g {
		g[i] = b + byte(i)
	}
	return
}

func must(b []byte, err error) []byte {
	if err != nil {
		panic("h: " + err.Error())
	}
	return b
}

var devSg = []fs.SgType{fs.StSECP256R1, fs.StSECP384R1}
var encs = []fs.FdoPkEnc{fs.X509, fs.X5CHAIN, fs.COSEKEY}

// der is the key in the chosen format: PKCS#8, or the algorithm's own.
func der(k any, own bool) []byte {
	if own {
		switch x := k.(type) {
		case *ecdsa.PrivateKey:
			return must(x509.MarshalECPrivateKey(x))
		case *rsa.PrivateKey:
			return x509.MarshalPKCS1PrivateKey(x)
		}
	}
	return must(x509.MarshalPKCS8PrivateKey(k))
}

func same(a, b any) bool {
	switch x := a.(type) {
	case *ecdsa.PrivateKey:
		y, ok := b.(*ecdsa.PrivateKey)
		return ok && x.Equal(y)
	case *rsa.PrivateKey:
		y, ok := b.(*rsa.PrivateKey)
		return ok && x.Equal(y)
	}
	return false
}

// H_export: an exported voucher with its key is what is imported.
func H_export() {
	sg := vxf.SgTypes[vx.Choose("owner key", 4)]
	o := vxf.Opt{DevSg: devSg[vx.Choose("device key", 2)], Sg: sg, N: 1 + vx.Choose("entries", vx.Bound("entries", 2, 4)), Guid: guid(3)}
	v := vxf.Build(o)
	own := vx.Bool("own format")
	e := fs.VoucherDBEntry{Voucher: v.V, PrivateKeyX509: der(v.OwnerKey(), own)}
	text, err := device.MarshalVoucherAndPrivateKey(e)
	vx.Assert(err == nil, "a voucher is exported")
	s := string(text)
	switch vx.Choose("around", 4) {
	case 1:
		s = "a voucher\n" + s + "the end\n"
	case 2:
		s = strings.ReplaceAll(s, "\n", "\r\n")
	case 3:
		s += s
	}
	r, err := fdodocommon.DecodePemVoucherAndKey(s)
	vx.Assert(err == nil && r != nil, "an exported voucher is imported")
	vx.Assert(vx.EqBytes(vxf.Marshal(r.Voucher), vxf.Marshal(v.V)), "the imported voucher is the exported one")
	vx.Assert(vx.EqBytes(r.PrivateKeyX509, e.PrivateKeyX509), "the imported key is the exported one")
	k, err := fs.ExtractPrivateKey(r.PrivateKeyX509)
	vx.Assert(err == nil, "the imported key is readable")
	vx.Assert(same(v.OwnerKey(), k), "the imported key equals the original")
	again, err := device.MarshalVoucherAndPrivateKey(*r)
	vx.Assert(err == nil && vx.EqBytes(again, text), "an imported voucher is exported alike")
	vx.Reach("imported")
}

// H_key: every private key the tools make is readable in the form they save.
func H_key() {
	sg := vxf.SgTypes[vx.Choose("owner key", 4)]
	k, _ := vxf.Key(sg)
	b, err := fs.MarshalPrivateKey(k, sg)
	vx.Assert(err == nil, "a key is saved")
	r, err := fs.ExtractPrivateKey(b)
	vx.Assert(err == nil && same(k, r), "a saved key is read back")
	r, err = fs.ExtractPrivateKey(der(k, true))
	vx.Assert(err == nil && same(k, r), "a key in its own format is read")
}

func equalCred(a, b fs.WawDeviceCredential) bool {
	return vx.EqBytes(vxf.Marshal(a), vxf.Marshal(b))
}

// H_load: a stored credential is what is loaded.
func H_load() {
	v := vxf.Build(vxf.Opt{DevSg: devSg[vx.Choose("device key", 2)], Sg: fs.StSECP256R1, N: 1, Guid: guid(1)})
	c := vxs.Cred(v)
	switch vx.Choose("field", 8) {
	case 0:
		c.DCProtVer = fs.ProtVersion(vx.U16("version"))
	case 1:
		c.DCGuid[vx.Choose("position", 16)] = vx.Byte("guid")
	case 2:
		c.DCHashAlg = fs.HashType(vx.Int("hash", -60, 60))
	case 3:
		c.DCHmacAlg = fs.HashType(vx.Int("hmac", 0, 300))
	case 4:
		c.DCHmacSecret = vx.Bytes("secret", vx.Choose("secret length", 3))
	case 5:
		c.DCDeviceInfo = []string{"", "\xc3\xa9", "x\n-----END WAW"}[vx.Choose("info", 3)]
	case 6:
		c.DCPubKeyHash = fs.HashOrHmac{Type: fs.HashType(vx.Int("key hash", -50, 50)), Hash: vx.Bytes("digest", 1)}
	case 7:
		c.DCPrivateKeyDer = vx.Bytes("key", vx.Choose("key length", 3))
	}
	defer vxm.Dir("_dis")()
	others := vx.Choose("others", 4)
	if others&1 != 0 {
		vxm.PutFile("_dis/.keep", []byte("x"))
	}
	if others&2 != 0 {
		vxm.PutFile("_dis/a.voucher.pem", []byte("y"))
	}
	vxm.PutFile("_dis/b.dis.pem", pem.EncodeToMemory(&pem.Block{Type: fs.CREDENTIAL_PEM_TYPE, Bytes: vxf.Marshal(c)}))
	r, err := device.LoadLocalCredentials()
	vx.Assert(err == nil, "a stored credential is loaded")
	vx.Assert(r.DCProtVer == c.DCProtVer, "the version is loaded")
	vx.Assert(r.DCHashAlg == c.DCHashAlg && r.DCHmacAlg == c.DCHmacAlg, "the algorithms are loaded")
	vx.Assert(vx.EqBytes(r.DCGuid[:], c.DCGuid[:]), "the GUID is loaded")
	vx.Assert(vx.EqBytes(r.DCHmacSecret, c.DCHmacSecret), "the secret is loaded")
	vx.Assert(vx.EqBytes(r.DCPrivateKeyDer, c.DCPrivateKeyDer), "the key is loaded")
	vx.Assert(equalCred(r, c), "the loaded credential is the stored one")
	vx.Reach("loaded")
}

// H_save: the files of a generated device hold its credential and its voucher, which belong together.
func H_save() {
	vx.Option("concrete-rand", 2)
	defer vxm.Dir("_dis", "_vouchers")()
	c, err := fs.NewWawDeviceCredential(devSg[vx.Choose("device key", 2)])
	if err != nil {
		panic(err)
	}
	sg := vxf.SgTypes[vx.Choose("owner key", 4)]
	rv := vxf.SomeRv()
	err = device.GenerateAndSaveDeviceCredAndVoucher(*c, sg, rv, testcom.NULL_TEST)
	vx.Assert(err == nil, "a device is saved")
	r, err := device.LoadLocalCredentials()
	vx.Assert(err == nil, "a saved device is loaded")
	vx.Assert(vx.EqBytes(r.DCPrivateKeyDer, c.DCPrivateKeyDer) && r.DCGuid == c.DCGuid && r.DCDeviceInfo == c.DCDeviceInfo, "the loaded device is the saved one")
	vx.Assert(vx.EqBytes(vxf.Marshal(r.DCCertificateChain), vxf.Marshal(c.DCCertificateChain)), "the chain is loaded")
	l, err := os.ReadDir("_vouchers")
	vx.Assert(err == nil && len(l) == 1, "a voucher is saved")
	b, err := os.ReadFile("_vouchers/" + l[0].Name())
	vx.Assert(err == nil, "the voucher is there")
	e, err := fdodocommon.DecodePemVoucherAndKey(string(b))
	vx.Assert(err == nil, "the saved voucher is imported")
	h, err := e.Voucher.GetOVHeader()
	vx.Assert(err == nil && h.OVGuid == r.DCGuid, "the voucher is the device's")
	vx.Assert(fs.VerifyHMac(e.Voucher.OVHeaderTag, e.Voucher.OVHeaderHMac, r.DCHmacSecret) == nil, "the loaded secret verifies the voucher")
	vx.Assert(vx.EqBytes(vxf.Marshal(e.Voucher.OVDevCertChain), vxf.Marshal(r.DCCertificateChain)), "the voucher has the device's chain")
	k, err := fs.ExtractPrivateKey(e.PrivateKeyX509)
	vx.Assert(err == nil, "the saved key is readable")
	last, err := e.Voucher.GetFinalOwnerPublicKey()
	vx.Assert(err == nil, "the voucher has an owner")
	_, sig := sign(k, sg)
	vx.Assert(fs.VerifyCoseSignature(*sig, last) == nil, "the saved key is the owner's")
	vx.Reach("saved")
}

func sign(k any, sg fs.SgType) ([]byte, *fs.CoseSignature) {
	p := []byte{1, 2, 3}
	s, err := fs.GenerateCoseSignature(p, fs.ProtectedHeader{}, fs.UnprotectedHeader{}, k, sg)
	if err != nil {
		panic(err)
	}
	return p, s
}

type block struct {
	text    string
	voucher bool
	key     bool
	pem     bool
}

// H_blocks: exactly a voucher followed by a private key is accepted.
func H_blocks() {
	sg := vxf.SgTypes[vx.Choose("owner key", 4)]
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: sg, N: 1, Guid: guid(1)})
	enc := func(t string, b []byte) string { return string(pem.EncodeToMemory(&pem.Block{Type: t, Bytes: b})) }
	voucher := vxf.Marshal(v.V)
	key := der(v.OwnerKey(), false)
	broken := v.V
	broken.OVHeaderTag = append([]byte{}, broken.OVHeaderTag...)
	broken.OVHeaderTag[len(broken.OVHeaderTag)-1] ^= 1
	bl := []block{
		{enc(fs.OWNERSHIP_VOUCHER_PEM_TYPE, voucher), true, false, true},
		{enc(fs.PRIVATE_KEY_PEM_TYPE, key), false, true, true},
		{enc(fs.CREDENTIAL_PEM_TYPE, vxf.Marshal(vxs.Cred(v))), false, false, true},
		{enc(fs.OWNERSHIP_VOUCHER_PEM_TYPE, nil), false, false, true},
		{enc(fs.OWNERSHIP_VOUCHER_PEM_TYPE, append(voucher[:len(voucher):len(voucher)], 0)), false, false, true},
		{enc(fs.OWNERSHIP_VOUCHER_PEM_TYPE, voucher[:len(voucher)-1]), false, false, true},
		{enc(fs.OWNERSHIP_VOUCHER_PEM_TYPE, vxf.Marshal(broken)), false, false, true},
		{enc("CERTIFICATE", voucher), false, false, true},
		{enc(fs.PRIVATE_KEY_PEM_TYPE, nil), false, false, true},
		{enc(fs.PRIVATE_KEY_PEM_TYPE, key[:len(key)-1]), false, false, true},
		{enc(fs.PRIVATE_KEY_PEM_TYPE, v.OwnerPub[0].PkBody.([]byte)), false, false, true},
		{enc("CERTIFICATE", (*v.V.OVDevCertChain)[0]), false, false, true},
		{"", false, false, false},
		{"-----BEGIN ", false, false, false},
		{"no text\n", false, false, false},
	}
	n := vx.Bound("blocks", 2, 3)
	var s string
	var seen []block
	for i := 0; i < n; i++ {
		b := bl[vx.Choose("block", len(bl))]
		s += b.text
		if b.pem {
			seen = append(seen, b)
		}
	}
	good := len(seen) >= 2 && seen[0].voucher && seen[1].key
	r, err := fdodocommon.DecodePemVoucherAndKey(s)
	if good {
		vx.Assert(err == nil && r != nil, "a voucher followed by a private key is accepted")
		vx.Reach("accepted")
	} else {
		vx.Assert(err != nil, "text that is not a voucher followed by a private key is refused")
	}
}

// accepted: whatever is imported is a voucher that verifies, and a private key.
func accepted(s string) {
	r, err := fdodocommon.DecodePemVoucherAndKey(s)
	if err != nil {
		vx.Reach("refused")
		return
	}
	vx.Assert(r.Voucher.Validate() == nil, "an imported voucher verifies")
	_, err = fs.ExtractPrivateKey(r.PrivateKeyX509)
	vx.Assert(err == nil, "an imported key is a private key")
}

// H_text: no short text, and no text of a voucher with bytes replaced, crashes the importer.
func H_text() {
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: guid(1)})
	good := string(must(device.MarshalVoucherAndPrivateKey(fs.VoucherDBEntry{Voucher: v.V, PrivateKeyX509: der(v.OwnerKey(), vx.Bool("own format"))})))
	second := strings.Index(good, "-----BEGIN PRIVATE")
	end := strings.Index(good, "-----END ")
	at := []int{0, 5, 10, 11, 20, 28, 29, 33, 34, 35, 40, 98, 99, end - 3, end - 2, end - 1, end, end + 5, end + 9, end + 27, second - 1, second, second + 16, second + 27, second + 28, second + 29, len(good) - 30, len(good) - 6, len(good) - 1}
	i := at[vx.Choose("position", len(at))]
	switch vx.Choose("change", 4) {
	case 0:
		accepted(good[:i] + string(vx.Bytes("bytes", 1)) + good[i+1:])
	case 1:
		accepted(good[:i] + string(vx.Bytes("bytes", 1)) + good[i:])
	case 2:
		accepted(good[:i])
	case 3:
		accepted(good[:i] + good[i+1:])
	}
}

// H_bytes: no voucher whose content is nearly right crashes the importer.
func H_bytes() {
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1 + vx.Choose("entries", 2), Guid: guid(1)})
	good := vxf.Marshal(v.V)
	l := vxf.Items(good)
	it := l[vx.Choose("item", len(l))]
	b := append([]byte{}, good[:it.From]...)
	switch vx.Choose("change", 3) {
	case 0:
	case 1:
		x := vx.Byte("replacement")
		vx.Assume(vx.Or(vx.Or(x < 24, vx.And(x >= 32, x < 56)), vx.Or(vx.Or(x == 0x40, x == 0x60), vx.Or(vx.Or(x == 0x80, x == 0xa0), vx.And(x >= 0xf4, x <= 0xf7)))))
		b = append(append(b, x), good[it.To:]...)
	case 2:
		b = append(b, good[it.To:]...)
	}
	accepted(string(pem.EncodeToMemory(&pem.Block{Type: fs.OWNERSHIP_VOUCHER_PEM_TYPE, Bytes: b})) + string(pem.EncodeToMemory(&pem.Block{Type: fs.PRIVATE_KEY_PEM_TYPE, Bytes: der(v.OwnerKey(), false)})))
}

// H_small: no small block crashes the importers.
func H_small() {
	b := vx.Bytes("bytes", vx.Choose("length", vx.Bound("length", 3, 4)))
	if len(b) > 0 {
		vx.Assume(b[0]>>5 != 6)
	}
	if vx.Bool("credential") {
		defer vxm.Dir("_dis")()
		vxm.PutFile("_dis/b.dis.pem", pem.EncodeToMemory(&pem.Block{Type: fs.CREDENTIAL_PEM_TYPE, Bytes: b}))
		_, err := device.LoadLocalCredentials()
		vx.Assert(err != nil, "what is not a credential is not loaded")
		return
	}
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: guid(1)})
	good := vxf.Marshal(v.V)
	key := der(v.OwnerKey(), false)
	if vx.Bool("voucher") {
		good = b
	} else {
		key = b
	}
	_, err := fdodocommon.DecodePemVoucherAndKey(string(pem.EncodeToMemory(&pem.Block{Type: fs.OWNERSHIP_VOUCHER_PEM_TYPE, Bytes: good})) + string(pem.EncodeToMemory(&pem.Block{Type: fs.PRIVATE_KEY_PEM_TYPE, Bytes: key})))
	vx.Assert(err != nil, "a small block is refused")
}

// H_load_bad: a file that is no credential is refused.
func H_load_bad() {
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: guid(1)})
	good := vxf.Marshal(vxs.Cred(v))
	enc := func(t string, b []byte) []byte { return pem.EncodeToMemory(&pem.Block{Type: t, Bytes: b}) }
	defer vxm.Dir("_dis")()
	b := [][]byte{
		{},
		[]byte("text"),
		good,
		enc(fs.OWNERSHIP_VOUCHER_PEM_TYPE, vxf.Marshal(v.V)),
		enc(fs.OWNERSHIP_VOUCHER_PEM_TYPE, good),
		enc(fs.PRIVATE_KEY_PEM_TYPE, good),
		enc(fs.CREDENTIAL_PEM_TYPE, vxf.Marshal(v.V)),
		enc(fs.CREDENTIAL_PEM_TYPE, good[:len(good)-1]),
		enc(fs.CREDENTIAL_PEM_TYPE, append(good[:len(good):len(good)], 0)),
	}[vx.Choose("file", 9)]
	vxm.PutFile("_dis/b.dis.pem", b)
	_, err := device.LoadLocalCredentials()
	vx.Assert(err != nil, "what is not a credential is refused")
}

// H_command: the commands that read a voucher or credential file end without crashing.
func H_command() {
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: guid(1)})
	good := must(device.MarshalVoucherAndPrivateKey(fs.VoucherDBEntry{Voucher: v.V, PrivateKeyX509: der(v.OwnerKey(), false)}))
	defer vxm.Dir()()
	b := [][]byte{good, good[:len(good)/2], {}, vxf.Marshal(v.V), []byte("x")}[vx.Choose("file", 5)]
	if vx.Bool("there") {
		vxm.PutFile("f", b)
	}
	os.Args = append([]string{"fdo"}, [][]string{{"decode_voucher", "f"}, {"decode_voucher"}, {"from_cbor_to_pem_voucher", "f"}, {"from_cbor_to_pem_voucher"}, {"iop", "to1", "http://rv", "f"}, {"iop", "to2", "http://rv", "f"}}[vx.Choose("command", 6)]...)
	p, msg := vx.Try(fdomain.Main)
	vx.Assert(!p || !strings.HasPrefix(msg, "runtime error"), "the command does not crash: "+msg)
}
