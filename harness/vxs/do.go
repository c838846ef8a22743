package vxs

import (
	"net/http"
	"strings"

	"github.com/dgraph-io/badger/v4"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/to2"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
)

// DO is an onboarding server.
type DO struct {
	DB  *badger.DB
	to2 to2.DoTo2
}

func NewDO() *DO { return DOOn(vxm.OpenDB()) }

func DOOn(db *badger.DB) *DO { return &DO{DB: db, to2: to2.NewDoTo2(db, Ctx())} }

// DOWith is an onboarding server with settings of its own.
func DOWith(db *badger.DB, h to2.DoTo2) *DO { return &DO{DB: db, to2: h} }

// Add gives the server a voucher.
func (s *DO) Add(v *vxf.Voucher) {
	if err := dodbs.NewVoucherDB(s.DB).Save(v.DBEntry()); err != nil {
		panic("vxs: " + err.Error())
	}
}

// Post sends a message; a nil token sends none.
func (s *DO) Post(cmd fs.FdoCmd, token *string, body []byte) *vxm.Rec {
	return s.PostAs(cmd, "application/cbor", token, body)
}

func (s *DO) PostAs(cmd fs.FdoCmd, ct string, token *string, body []byte) *vxm.Rec {
	var f func(http.ResponseWriter, *http.Request)
	switch cmd {
	case 60:
		f = s.to2.HelloDevice60
	case 62:
		f = s.to2.GetOVNextEntry62
	case 64:
		f = s.to2.ProveDevice64
	case 66:
		f = s.to2.DeviceServiceInfoReady66
	case 68:
		f = s.to2.DeviceServiceInfo68
	case 70:
		f = s.to2.Done70
	default:
		panic("vxs: no such onboarding message")
	}
	return do(f, cmd, ct, token, body)
}

// Session is the stored session of a token, nil when there is none.
func (s *DO) Session(token string) *dodbs.SessionEntry {
	e, err := dodbs.NewSessionDB(s.DB).GetSessionEntry([]byte(strings.TrimPrefix(token, "Bearer ")))
	if err != nil {
		return nil
	}
	return e
}

// Begin stores a session and returns its token.
func (s *DO) Begin(e dodbs.SessionEntry) string {
	id, err := dodbs.NewSessionDB(s.DB).NewSessionEntry(e)
	if err != nil {
		panic("vxs: " + err.Error())
	}
	return "Bearer " + string(id)
}

// Put replaces a stored session.
func (s *DO) Put(token string, e dodbs.SessionEntry) {
	if err := dodbs.NewSessionDB(s.DB).UpdateSessionEntry([]byte(strings.TrimPrefix(token, "Bearer ")), e); err != nil {
		panic("vxs: " + err.Error())
	}
}

// Dev is a device in a TO2 session.
type Dev struct {
	S      *DO
	V      *vxf.Voucher
	Kex    fs.KexSuiteName
	Cipher fs.CipherSuiteName

	Token    string
	Hello    fs.HelloDevice60
	Raw      []byte                  // the hello message
	Hdr      fs.TO2ProveOVHdrPayload // the server's answer
	ProveDv  fs.FdoNonce
	OwnerPub fs.FdoPublicKey
	Setup    fs.FdoNonce
	XB       *fs.KeXParams
	Key      fs.SessionKeyInfo
}

func nonce(name string) (n fs.FdoNonce) {
	copy(n[:], vx.Bytes(name, 16))
	return
}

// Hello60 opens a session.
func (s *DO) Hello60(v *vxf.Voucher, kex fs.KexSuiteName, cipher fs.CipherSuiteName) *Dev {
	d := &Dev{S: s, V: v, Kex: kex, Cipher: cipher}
	d.Hello = fs.HelloDevice60{MaxDeviceMessageSize: 1300, Guid: v.H.OVGuid, NonceTO2ProveOV: nonce("prove ov nonce"), KexSuiteName: kex, CipherSuiteName: cipher, EASigInfo: fs.SigInfo{SgType: v.DevSg, Info: []byte{}}}
	d.Raw = vxf.Marshal(d.Hello)
	rec := s.Post(60, nil, d.Raw)
	vx.Assert(OK(rec, "61"), "a correct hello is accepted")
	d.Answer61(rec)
	return d
}

// Answer61 takes the server's header message apart.
func (d *Dev) Answer61(rec *vxm.Rec) {
	var c fs.CoseSignature
	vx.Assert(fs.CborCust.Unmarshal(rec.Body, &c) == nil, "the answer to a hello decodes")
	vx.Assert(c.Unprotected.CUPHNonce != nil && c.Unprotected.CUPHOwnerPubKey != nil, "the answer to a hello has a nonce and the owner's key")
	vx.Assert(fs.VerifyCoseSignature(c, d.V.OwnerPub[len(d.V.OwnerPub)-1]) == nil, "the answer to a hello is signed by the owner")
	vx.Assert(fs.CborCust.Unmarshal(c.Payload, &d.Hdr) == nil, "the answer to a hello decodes")
	d.ProveDv = *c.Unprotected.CUPHNonce
	d.OwnerPub = *c.Unprotected.CUPHOwnerPubKey
	d.Token = rec.H.Get("Authorization")
}

// Entry62 asks for a voucher entry.
func (d *Dev) Entry62(i uint8) *vxm.Rec {
	return d.S.Post(62, &d.Token, vxf.Marshal(fs.GetOVNextEntry62{GetOVNextEntry: i}))
}

// Entries asks for every voucher entry.
func (d *Dev) Entries() {
	for i := range d.V.V.OVEntryArray {
		vx.Assert(OK(d.Entry62(uint8(i)), "63"), "a request for an entry in range is accepted")
	}
}

// Exchange makes the device's half of the key exchange.
func (d *Dev) Exchange() {
	x, err := fs.GenerateXABKeyExchange(d.Kex, &d.OwnerPub)
	if err != nil {
		panic("vxs: " + err.Error())
	}
	d.XB = x
	k, err := fs.DeriveSessionKey(*x, d.Hdr.XAKeyExchange, true, nil)
	if err != nil {
		panic("vxs: " + err.Error())
	}
	d.Key = *k
	d.Setup = nonce("setup nonce")
}

// EAT is the correct attestation payload.
func (d *Dev) EAT() fs.EATPayloadBase {
	return fs.EATPayloadBase{EatNonce: d.ProveDv, EatUEID: fs.GenerateEatGuid(d.V.H.OVGuid), EatFDO: fs.TO2ProveDevicePayload{XBKeyExchange: d.XB.XAKeyExchange}}
}

// Sign makes an attestation token.
func (d *Dev) Sign(p fs.EATPayloadBase, key any, sg fs.SgType) fs.CoseSignature {
	s, err := fs.GenerateCoseSignature(vxf.Marshal(p), fs.ProtectedHeader{}, fs.UnprotectedHeader{EUPHNonce: &d.Setup}, key, sg)
	if err != nil {
		panic("vxs: " + err.Error())
	}
	return *s
}

// Prove64 proves the device and takes the answer apart.
func (d *Dev) Prove64() {
	d.Exchange()
	rec := d.S.Post(64, &d.Token, vxf.Marshal(d.Sign(d.EAT(), d.V.DevKey, d.V.DevSg)))
	vx.Assert(OK(rec, "65"), "a correct proof is accepted")
	d.Answer65(rec)
}

// Answer65 is the claim that rec is the setup message for this device.
func (d *Dev) Answer65(rec *vxm.Rec) fs.TO2SetupDevicePayload {
	var c fs.CoseSignature
	vx.Assert(fs.CborCust.Unmarshal(d.Dec(rec), &c) == nil, "the setup message decodes")
	vx.Assert(fs.VerifyCoseSignature(c, d.V.OwnerPub[len(d.V.OwnerPub)-1]) == nil, "the setup message is signed by the owner")
	var p fs.TO2SetupDevicePayload
	vx.Assert(fs.CborCust.Unmarshal(c.Payload, &p) == nil, "the setup message decodes")
	vx.Assert(p.NonceTO2SetupDv == d.Setup, "the setup message carries the device's setup nonce")
	return p
}

// Enc encrypts a message for the server.
func (d *Dev) Enc(payload []byte) []byte {
	b, err := fs.AddEncryptionWrapping(payload, d.Key, d.Cipher)
	if err != nil {
		panic("vxs: " + err.Error())
	}
	return b
}

// Dec decrypts a reply.
func (d *Dev) Dec(rec *vxm.Rec) []byte {
	b, err := fs.RemoveEncryptionWrapping(rec.Body, d.Key, d.Cipher)
	vx.Assert(err == nil, "a reply decrypts under the session key and suite")
	return b
}

// Ready66 announces service info.
func (d *Dev) Ready66() {
	rec := d.S.Post(66, &d.Token, d.Enc(vxf.Marshal(fs.DeviceServiceInfoReady66{})))
	vx.Assert(OK(rec, "67"), "a correct service info ready is accepted")
	d.Dec(rec)
}

// Info68 sends service info.
func (d *Dev) Info68(more bool, l []fs.ServiceInfoKV) *vxm.Rec {
	return d.S.Post(68, &d.Token, d.Enc(vxf.Marshal(fs.DeviceServiceInfo68{IsMoreServiceInfo: more, ServiceInfo: l})))
}

// Done70 ends the session.
func (d *Dev) Done70() *vxm.Rec {
	return d.S.Post(70, &d.Token, d.Enc(vxf.Marshal(fs.Done70{NonceTO2ProveDv: d.ProveDv})))
}

// SIMs is a complete device service info.
func SIMs() []fs.ServiceInfoKV {
	kv := func(k fs.SIM_ID, v any) fs.ServiceInfoKV {
		return fs.ServiceInfoKV{ServiceInfoKey: k, ServiceInfoVal: vxf.Marshal(v)}
	}
	return []fs.ServiceInfoKV{kv(fs.SIM_DEVMOD_ACTIVE, true), kv(fs.SIM_DEVMOD_OS, "os"), kv(fs.SIM_DEVMOD_ARCH, "arch"), kv(fs.SIM_DEVMOD_VERSION, "v"),
		kv(fs.SIM_DEVMOD_DEVICE, "d"), kv(fs.SIM_DEVMOD_SEP, "/"), kv(fs.SIM_DEVMOD_BIN, "b"), kv(fs.SIM_DEVMOD_NUMMODULES, uint(1)), kv(fs.SIM_DEVMOD_MODULES, []any{uint(1), uint(1), "m"})}
}

// At stores a session of the device's voucher as it is after the given message was accepted, with a fresh session key
// once the device has proved itself.
func (s *DO) At(v *vxf.Voucher, last fs.FdoCmd, cipher fs.CipherSuiteName) *Dev {
	d := &Dev{S: s, V: v, Kex: fs.KEX_ECDH256, Cipher: cipher, ProveDv: nonce("prove dv nonce"), Setup: nonce("setup nonce")}
	d.Key = fs.SessionKeyInfo{ShSe: vx.Bytes("shared secret", 16), ContextRand: []byte{}}
	e := v.DBEntry()
	d.Token = s.Begin(dodbs.SessionEntry{Protocol: fs.To2, PrevCMD: last, KexSuiteName: d.Kex, NonceTO2ProveOV60: nonce("prove ov nonce"), NonceTO2ProveDv61: d.ProveDv, NonceTO2SetupDv64: d.Setup,
		EASigInfo: fs.SigInfo{SgType: v.DevSg, Info: []byte{}}, PrivateKeyDER: e.PrivateKeyX509, CipherSuiteName: cipher, PublicKeyType: fs.SgTypeToFdoPkType[v.Sg], SignatureSgType: v.Sg, Guid: v.H.OVGuid,
		Voucher: v.V, NumOVEntries: uint8(len(v.V.OVEntryArray)), SessionKey: d.Key, OwnerSIMs: []fs.ServiceInfoKV{}})
	return d
}
