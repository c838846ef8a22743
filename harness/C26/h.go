package main

import (
	"net/http"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

func guid(b byte) (g fs.FdoGuid) {
	for i := range g {
		g[i] = b + byte(i)
	}
	return
}

func client(v *vxf.Voucher, kex fs.KexSuiteName, cipher fs.CipherSuiteName) *to2.To2Requestor {
	c := to2.NewTo2Requestor(fs.SRVEntry{SrvURL: "http://do"}, vxs.Cred(v), kex, cipher)
	return &c
}

func sign(payload []byte, u fs.UnprotectedHeader, priv any, sg fs.SgType) fs.CoseSignature {
	s, err := fs.GenerateCoseSignature(payload, fs.ProtectedHeader{}, u, priv, sg)
	if err != nil {
		panic(err)
	}
	return *s
}

func otherNonce(n fs.FdoNonce, name string) fs.FdoNonce {
	var o fs.FdoNonce
	copy(o[:], vx.Bytes(name, 16))
	vx.Assume(o != n)
	return o
}

func otherBytes(b []byte, name string) []byte {
	o := vx.Bytes(name, len(b))
	vx.Assume(!vx.EqBytes(o, b))
	return o
}

func flipped(b []byte) []byte {
	o := append([]byte{}, b...)
	o[vx.Choose("byte", 2)*(len(o)-1)] ^= 1
	return o
}

// status is what the server answers with; 200 comes first.
func status() int {
	return []int{200, 201, 400, 500}[vx.Choose("status", 4)]
}

// H_hello: the answer to a hello is accepted exactly when it is authentic.
func H_hello() {
	vx.Option("concrete-rand", 2)
	di := vx.Choose("device key", 4)
	sg := vxf.SgTypes[vx.Choose("owner key", vx.Bound("owner key types", 2, 4))]
	vx.Assume(di < 2)
	v := vxf.Build(vxf.Opt{DevSg: vxf.SgTypes[di], Sg: sg, N: 1, Guid: guid(1)})
	o := vxf.Build(vxf.Opt{DevSg: vxf.SgTypes[di], Sg: sg, N: 1, Guid: guid(1), Secret: vx.Bytes("another device's secret", 32), Info: "dev"})
	vx.Assume(!vx.EqBytes(o.Secret, v.Secret))
	vx.Assume(o.Secret[31] != 0) // HMAC pads keys with zeros
	xa, err := fs.GenerateXABKeyExchange(fs.KEX_ECDH256, nil)
	if err != nil {
		panic(err)
	}
	fault := vx.Choose("deviation", 20)
	c := client(v, fs.KEX_ECDH256, fs.CIPHER_A128GCM)
	var proveDv fs.FdoNonce
	copy(proveDv[:], vx.Bytes("prove dv nonce", 16))
	st, good := 200, fault == 0
	vxs.Net(func(m vxs.Sent) (*http.Response, error) {
		vx.Assert(m.Cmd == 60, "a hello is sent to the path of its message type")
		var h fs.HelloDevice60
		vx.Assert(fs.CborCust.Unmarshal(m.Body, &h) == nil, "the hello decodes")
		vx.Assert(vx.And(h.Guid == v.H.OVGuid, h.EASigInfo.SgType == v.DevSg), "the hello names the device and its key type")
		vx.Assert(vx.And(h.KexSuiteName == fs.KEX_ECDH256, h.CipherSuiteName == fs.CIPHER_A128GCM), "the hello names the suites asked for")
		p := fs.TO2ProveOVHdrPayload{OVHeader: v.V.OVHeaderTag, NumOVEntries: 1, HMac: v.V.OVHeaderHMac, NonceTO2ProveOV: h.NonceTO2ProveOV, EBSigInfo: h.EASigInfo,
			XAKeyExchange: xa.XAKeyExchange, HelloDeviceHash: vxf.Hash(m.Body, v.HashAlg), MaxOwnerMessageSize: 1000}
		u := fs.UnprotectedHeader{CUPHNonce: &proveDv, CUPHOwnerPubKey: &v.OwnerPub[1]}
		key := v.OwnerKey()
		switch fault {
		case 1: // another key's signature
			key = v.Owner[0]
		case 2:
			u.CUPHOwnerPubKey = &v.OwnerPub[0]
		case 3:
			u.CUPHOwnerPubKey = nil
		case 4:
			u.CUPHNonce = nil
		case 5:
			p.NonceTO2ProveOV = otherNonce(h.NonceTO2ProveOV, "another nonce")
		case 6: // a hash of something else
			p.HelloDeviceHash.Hash = otherBytes(p.HelloDeviceHash.Hash, "another hash")
		case 7:
			p.HelloDeviceHash = vxf.Hash(m.Body[1:], v.HashAlg)
		case 8:
			p.HelloDeviceHash.Type = fs.HashType(vx.Int("hash type", -50, 50))
			vx.Assume(p.HelloDeviceHash.Type != v.HashAlg)
		case 9:
			p.HMac.Hash = otherBytes(p.HMac.Hash, "another HMAC")
		case 10:
			p.HMac.Type = fs.HashType(vx.Int("HMAC type", -50, 50))
			vx.Assume(p.HMac.Type != v.HmacAlg)
		case 11: // another header
			b := append([]byte{}, p.OVHeader...)
			i := vx.Choose("header byte", 8) * len(b) / 8
			b[i] ^= byte(vx.Int("flip", 1, 255))
			p.OVHeader = b
		case 12: // another device's header
			p.OVHeader, p.HMac = o.V.OVHeaderTag, o.V.OVHeaderHMac
		case 13:
			p.EBSigInfo.SgType = fs.SgType(vx.Int("signature type", -260, 0))
			vx.Assume(p.EBSigInfo.SgType != h.EASigInfo.SgType)
		case 14:
			p.EBSigInfo.Info = vx.Bytes("signature info", 2)
		case 15: // a payload changed after it was signed
			s := sign(vxf.Marshal(p), u, key, sg)
			b := append([]byte{}, s.Payload...)
			i := len(b) - 1 - vx.Choose("payload byte", 4)
			b[i] ^= byte(vx.Int("flip", 1, 255))
			s.Payload = b
			return vxs.Reply(200, "Bearer t", vxf.Marshal(s)), nil
		case 16:
			st = status()
			vx.Assume(st != 200)
		case 17: // a part of the hash
			p.HelloDeviceHash.Hash = p.HelloDeviceHash.Hash[:vx.Choose("part", 4)*len(p.HelloDeviceHash.Hash)/4]
		case 18:
			p.HMac.Hash = p.HMac.Hash[:vx.Choose("part", 4)*len(p.HMac.Hash)/4]
		case 19: // a hash without a kind
			p.HelloDeviceHash = fs.HashOrHmac{}
		}
		return vxs.Reply(st, "Bearer t", vxf.Marshal(sign(vxf.Marshal(p), u, key, sg))), nil
	})
	h, _, err := c.HelloDevice60(testcom.NULL_TEST)
	vx.Expect("accepted")
	vx.Expect("refused")
	if good {
		vx.Reach("accepted")
		vx.Assert(err == nil && h != nil, "an authentic answer to a hello is accepted")
		vx.Assert(vx.EqBytes(h.OVHeader, v.V.OVHeaderTag), "the header is returned as it was sent")
		vx.Assert(vx.And(c.NonceTO2ProveDv61 == proveDv, c.AuthzHeader == "Bearer t"), "the client keeps the nonce and token it was given")
		vx.Assert(c.ProveOVHdr61PubKey.Equal(v.OwnerPub[1]) == nil, "the client keeps the key the answer was signed with")
	} else {
		vx.Reach("refused")
		vx.Assert(err != nil && h == nil, "an answer that deviates is refused")
		vx.Assert(!c.Completed60, "a refused hello is not completed")
	}
}

// H_setup: the setup message is accepted exactly when it is authentic, and the proof before it is right.
func H_setup() {
	vx.Option("concrete-rand", 2)
	sg := vxf.SgTypes[vx.Choose("owner key", vx.Bound("owner key types", 2, 4))]
	cipher := []fs.CipherSuiteName{fs.CIPHER_A128GCM, fs.CIPHER_COSE_AES128_CTR}[vx.Choose("suite", 2)]
	v := vxf.Build(vxf.Opt{DevSg: vxf.SgTypes[vx.Choose("device key", 2)], Sg: sg, N: 1, Guid: guid(1)})
	kex := []fs.KexSuiteName{fs.KEX_ECDH256, fs.KEX_DHKEXid14}[vx.Choose("key exchange", vx.Bound("key exchanges", 1, 2))]
	xa, err := fs.GenerateXABKeyExchange(kex, nil)
	if err != nil {
		panic(err)
	}
	c := client(v, kex, cipher)
	c.AuthzHeader = "Bearer t"
	c.XAKex = xa.XAKeyExchange
	copy(c.NonceTO2ProveDv61[:], vx.Bytes("prove dv nonce", 16))
	c.ProveOVHdr61PubKey = v.OwnerPub[1]
	fault := vx.Choose("deviation", 11)
	newGuid := guid(1)
	if vx.Bool("replaced") {
		copy(newGuid[:], vx.Bytes("new guid", 16))
		vx.Assume(newGuid != guid(1))
	}
	vxs.Net(func(m vxs.Sent) (*http.Response, error) {
		vx.Assert(vx.And(m.Cmd == 64, m.Token == "Bearer t"), "the proof is sent to the path of its message type with the session's token")
		var s fs.CoseSignature
		vx.Assert(fs.CborCust.Unmarshal(m.Body, &s) == nil, "the proof decodes")
		vx.Assert(fs.VerifyCoseSignature(s, vxf.Encode(v.DevKey, v.DevSg, fs.X509)) == nil, "the proof is signed with the device's key")
		var eat fs.EATPayloadBase
		vx.Assert(fs.CborCust.Unmarshal(s.Payload, &eat) == nil, "the proof decodes")
		vx.Assert(eat.EatNonce == c.NonceTO2ProveDv61, "the proof carries the owner's nonce")
		vx.Assert(vx.EqBytes(eat.EatUEID[:], append([]byte{1}, v.H.OVGuid[:]...)), "the proof names the device")
		vx.Assert(s.Unprotected.EUPHNonce != nil, "the proof carries a setup nonce")
		n := *s.Unprotected.EUPHNonce
		k, err := fs.DeriveSessionKey(*xa, eat.EatFDO.XBKeyExchange, false, v.OwnerKey())
		vx.Assert(err == nil, "the owner derives a key from the proof")
		p := fs.TO2SetupDevicePayload{RendezvousInfo: vxf.SomeRv(), ReplacementGuid: newGuid, NonceTO2SetupDv: n, ReplacementOwner2Key: v.OwnerPub[1]}
		key := v.OwnerKey()
		switch fault {
		case 1:
			key = v.Owner[0]
		case 2:
			p.ReplacementOwner2Key = v.OwnerPub[0]
		case 3:
			p.NonceTO2SetupDv = otherNonce(n, "another nonce")
		case 4:
			p.RendezvousInfo = fs.RendezvousInfo{}
		case 5: // the payload of an error
			p := fs.FdoError{EMErrorCode: 100, EMPrevMsgID: 64, EMErrorStr: "no", EMErrorTs: 1}
			return enc(200, vxf.Marshal(sign(vxf.Marshal(p), fs.UnprotectedHeader{}, key, sg)), *k, cipher), nil
		}
		sd := sign(vxf.Marshal(p), fs.UnprotectedHeader{}, key, sg)
		switch fault {
		case 6:
			b := append([]byte{}, sd.Payload...)
			b[len(b)-1-vx.Choose("payload byte", 4)] ^= byte(vx.Int("flip", 1, 255))
			sd.Payload = b
		case 7: // not encrypted
			return vxs.Reply(200, "", vxf.Marshal(sd)), nil
		case 8: // encrypted with another key; without a tag that shows only by the contents
			vx.Assume(cipher == fs.CIPHER_A128GCM)
			k.ShSe = flipped(k.ShSe)
		case 9:
			st := status()
			vx.Assume(st != 200)
			return enc(st, vxf.Marshal(sd), *k, cipher), nil
		case 10:
			return nil, vxs.ErrNet
		}
		return enc(200, vxf.Marshal(sd), *k, cipher), nil
	})
	p, _, err := c.ProveDevice64(testcom.NULL_TEST)
	vx.Expect("accepted")
	vx.Expect("refused")
	if fault == 0 {
		vx.Reach("accepted")
		vx.Assert(err == nil && p != nil, "an authentic setup message is accepted")
		vx.Assert(p.ReplacementGuid == newGuid, "the setup message is returned as it was sent")
		vx.Assert(c.AuthzHeader == "Bearer t", "the session's token is kept when an answer repeats none")
		vx.Assert(c.CredentialReuse == (newGuid == v.H.OVGuid), "the credential is reused exactly when the GUID stays")
	} else {
		vx.Reach("refused")
		vx.Assert(err != nil && p == nil, "a setup message that deviates is refused")
	}
}

func enc(st int, body []byte, k fs.SessionKeyInfo, cipher fs.CipherSuiteName) *http.Response {
	b, err := fs.AddEncryptionWrapping(body, k, cipher)
	if err != nil {
		panic(err)
	}
	return vxs.Reply(st, "", b)
}

// H_done: the exchange completes exactly when the final message carries the device's setup nonce under the session key;
// service info answers count only under the session key.
func H_done() {
	vx.Option("concrete-rand", 2)
	cipher := []fs.CipherSuiteName{fs.CIPHER_A128GCM, fs.CIPHER_COSE_AES128_CTR}[vx.Choose("suite", 2)]
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: guid(1)})
	c := client(v, fs.KEX_ECDH256, cipher)
	c.AuthzHeader = "Bearer t"
	c.SessionKey = fs.SessionKeyInfo{ShSe: []byte("0123456789abcdef"), ContextRand: []byte{}}
	copy(c.NonceTO2SetupDv64[:], vx.Bytes("setup nonce", 16))
	copy(c.NonceTO2ProveDv61[:], vx.Bytes("prove dv nonce", 16))
	cmd := []fs.FdoCmd{66, 68, 70}[vx.Choose("message", 3)]
	sims := []fs.ServiceInfoKV{{ServiceInfoKey: "a:b", ServiceInfoVal: []byte{1}}}
	fault := vx.Choose("deviation", 8)
	vxs.Net(func(m vxs.Sent) (*http.Response, error) {
		vx.Assert(vx.And(m.Cmd == cmd, m.Token == "Bearer t"), "a message is sent to the path of its type with the session's token")
		b, err := fs.RemoveEncryptionWrapping(m.Body, c.SessionKey, cipher)
		vx.Assert(err == nil, "a message is encrypted under the session key")
		k := c.SessionKey
		var r []byte
		switch cmd {
		case 66:
			var q fs.DeviceServiceInfoReady66
			vx.Assert(fs.CborCust.Unmarshal(b, &q) == nil, "the message decodes")
			sz := uint16(1234)
			r = vxf.Marshal(fs.OwnerServiceInfoReady67{MaxDeviceServiceInfoSz: &sz})
		case 68:
			var q fs.DeviceServiceInfo68
			vx.Assert(fs.CborCust.Unmarshal(b, &q) == nil, "the message decodes")
			vx.Assert(vx.EqBytes(vxf.Marshal(q), vxf.Marshal(fs.DeviceServiceInfo68{IsMoreServiceInfo: true, ServiceInfo: sims})), "the service info is sent as given")
			r = vxf.Marshal(fs.OwnerServiceInfo69{IsDone: true, ServiceInfo: sims})
		case 70:
			var q fs.Done70
			vx.Assert(fs.CborCust.Unmarshal(b, &q) == nil, "the message decodes")
			vx.Assert(q.NonceTO2ProveDv == c.NonceTO2ProveDv61, "the last message carries the owner's nonce")
			n := c.NonceTO2SetupDv64
			if fault == 1 {
				n = otherNonce(n, "another nonce")
			}
			r = vxf.Marshal(fs.Done271{NonceTO2SetupDv: n})
		}
		switch fault {
		case 1:
			vx.Assume(cmd == 70)
		case 2: // an error
			r = vxf.Marshal(fs.FdoError{EMErrorCode: 100, EMPrevMsgID: cmd, EMErrorStr: "no", EMErrorTs: 1})
		case 3: // not encrypted
			return vxs.Reply(200, "", r), nil
		case 4: // without a tag another key shows only by the contents
			vx.Assume(cipher == fs.CIPHER_A128GCM)
			k.ShSe = flipped(k.ShSe)
		case 5:
			st := status()
			vx.Assume(st != 200)
			return enc(st, r, k, cipher), nil
		case 6:
			return nil, vxs.ErrNet
		case 7: // another message
			r = vxf.Marshal([]any{uint(1), "x", []byte{1}, true, uint(3), uint(4)})
		}
		return enc(200, r, k, cipher), nil
	})
	var err error
	same := false
	switch cmd {
	case 66:
		var a *fs.OwnerServiceInfoReady67
		a, _, err = c.DeviceServiceInfoReady66(testcom.NULL_TEST)
		same = err == nil && *a.MaxDeviceServiceInfoSz == 1234
	case 68:
		var a *fs.OwnerServiceInfo69
		a, _, err = c.DeviceServiceInfo68(fs.DeviceServiceInfo68{IsMoreServiceInfo: true, ServiceInfo: sims}, testcom.NULL_TEST)
		same = err == nil && a.IsDone && !a.IsMoreServiceInfo && vx.EqBytes(vxf.Marshal(a.ServiceInfo), vxf.Marshal(sims))
	case 70:
		var a *fs.Done271
		a, _, err = c.Done70(testcom.NULL_TEST)
		same = err == nil && a != nil
	}
	vx.Expect("accepted")
	vx.Expect("refused")
	if fault == 0 {
		vx.Reach("accepted")
		vx.Assert(same, "a correct answer is accepted and returned")
		vx.Assert(c.AuthzHeader == "Bearer t", "the session's token is kept when an answer repeats none")
	} else {
		vx.Reach("refused")
		vx.Assert(err != nil, "an answer that deviates is refused")
	}
}

// H_any: no answer crashes the client, and none of these is accepted.
func H_any() {
	vx.Option("concrete-rand", 2)
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: guid(1)})
	c := client(v, fs.KEX_ECDH256, fs.CIPHER_A128GCM)
	c.AuthzHeader = "Bearer t"
	c.SessionKey = fs.SessionKeyInfo{ShSe: []byte("0123456789abcdef"), ContextRand: []byte{}}
	c.ProveOVHdr61PubKey = v.OwnerPub[1]
	c.NonceTO2ProveDv61 = fs.FdoNonce(guid(100))
	c.NonceTO2SetupDv64 = fs.FdoNonce(guid(200))
	cmd := []fs.FdoCmd{60, 62, 64, 66, 68, 70}[vx.Choose("message", 6)]
	n := vx.Choose("length", vx.Bound("answer bytes", 3, 4))
	body := vx.Bytes("body", n)
	for _, b := range body {
		vx.Assume(b>>5 != 3 && b>>5 != 6) // no text, no tags
	}
	st := []int{200, 500}[vx.Choose("status", 2)]
	encrypted := cmd > 64 && vx.Bool("encrypted")
	vxs.Net(func(m vxs.Sent) (*http.Response, error) {
		if encrypted {
			return enc(st, body, c.SessionKey, c.CipherSuiteName), nil
		}
		return vxs.Reply(st, "", body), nil
	})
	if cmd == 64 {
		xa, err := fs.GenerateXABKeyExchange(fs.KEX_ECDH256, nil)
		if err != nil {
			panic(err)
		}
		c.XAKex = xa.XAKeyExchange
	}
	var err error
	p, msg := vx.Try(func() {
		switch cmd {
		case 60:
			_, _, err = c.HelloDevice60(testcom.NULL_TEST)
		case 62:
			_, _, err = c.GetOVNextEntry62(0, testcom.NULL_TEST)
		case 64:
			_, _, err = c.ProveDevice64(testcom.NULL_TEST)
		case 66:
			_, _, err = c.DeviceServiceInfoReady66(testcom.NULL_TEST)
		case 68:
			_, _, err = c.DeviceServiceInfo68(fs.DeviceServiceInfo68{ServiceInfo: vxs.SIMs()}, testcom.NULL_TEST)
		case 70:
			_, _, err = c.Done70(testcom.NULL_TEST)
		}
	})
	vx.Assert(!p, "no answer crashes the client: "+msg)
	if cmd == 66 || cmd == 68 {
		vx.Assert(err != nil || (encrypted && st == 200), "service info counts only under the session key")
	} else {
		vx.Assert(err != nil, "an answer that deviates is refused")
	}
}

// H_exchange: the exchange starts from any bytes the owner offers without crashing, and reveals nothing for a
// point that is not on the curve.
func H_exchange() {
	vx.Option("concrete-rand", 2)
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: guid(1)})
	kex := []fs.KexSuiteName{fs.KEX_ECDH256, fs.KEX_ECDH384, fs.KEX_DHKEXid14, fs.KEX_DHKEXid15, fs.KEX_ASYMKEX2048, "none"}[vx.Choose("key exchange", 6)]
	c := client(v, kex, fs.CIPHER_A128GCM)
	c.ProveOVHdr61PubKey = v.OwnerPub[1]
	n := []int{0, 1, 2, 5, 8}[vx.Choose("length", 5)]
	if kex == fs.KEX_DHKEXid14 || kex == fs.KEX_DHKEXid15 { // no modular powers of symbolic numbers
		c.XAKex = [][]byte{{}, {0}, {1, 0}, {0, 0, 0, 0, 2}, {255, 255, 255, 255, 255, 255, 255, 255}}[n%5]
	} else {
		c.XAKex = vx.Bytes("exchange", n)
	}
	vxs.Net(func(m vxs.Sent) (*http.Response, error) { return nil, vxs.ErrNet })
	var err error
	p, msg := vx.Try(func() { _, _, err = c.ProveDevice64(testcom.NULL_TEST) })
	vx.Assert(!p, "no key exchange crashes the client: "+msg)
	vx.Assert(err != nil, "an exchange that fails is an error")
}

// mangled replaces one item of an encoding with another small one, or cuts it off there.
func mangled(b []byte, max int) []byte {
	l := vxf.Items(b)
	n := len(l)
	if n > max {
		n = max
	}
	it := l[vx.Choose("item", n)]
	if vx.Bool("cut") {
		return append([]byte{}, b[:it.From]...)
	}
	x := vx.Byte("replacement")
	vx.Assume(vx.Or(vx.Or(x < 24, vx.And(x >= 32, x < 56)), vx.Or(vx.Or(x == 0x40, x == 0x60), vx.Or(vx.Or(x == 0x80, x == 0xa0), vx.And(x >= 0xf4, x <= 0xf7)))))
	return append(append(append([]byte{}, b[:it.From]...), x), b[it.To:]...)
}

// H_mangled: no answer that is nearly right crashes the client.
func H_mangled() {
	vx.Option("concrete-rand", 2)
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: guid(1)})
	c := client(v, fs.KEX_ECDH256, fs.CIPHER_A128GCM)
	c.AuthzHeader = "Bearer t"
	c.SessionKey = fs.SessionKeyInfo{ShSe: []byte("0123456789abcdef"), ContextRand: []byte{}}
	c.ProveOVHdr61PubKey = v.OwnerPub[1]
	c.NonceTO2ProveDv61 = fs.FdoNonce(guid(100))
	c.NonceTO2SetupDv64 = fs.FdoNonce(guid(200))
	xa, err := fs.GenerateXABKeyExchange(fs.KEX_ECDH256, nil)
	if err != nil {
		panic(err)
	}
	c.XAKex = xa.XAKeyExchange
	cmd := []fs.FdoCmd{60, 62, 64, 66, 68, 70}[vx.Choose("message", 6)]
	inner := vx.Choose("inner", 3) // the payload of the signature, the message, or its encryption
	const max = 14
	in := func(p []byte) []byte {
		if inner == 0 {
			return mangled(p, max)
		}
		return p
	}
	out := func(p []byte) []byte {
		if inner == 1 {
			return mangled(p, max)
		}
		return p
	}
	vxs.Net(func(m vxs.Sent) (*http.Response, error) {
		var r []byte
		k := c.SessionKey
		switch cmd {
		case 60:
			vx.Assume(inner < 2)
			p := fs.TO2ProveOVHdrPayload{OVHeader: v.V.OVHeaderTag, NumOVEntries: 1, HMac: v.V.OVHeaderHMac, NonceTO2ProveOV: c.NonceTO2ProveOV60, EBSigInfo: c.Credential.DCSigInfo,
				XAKeyExchange: c.XAKex, HelloDeviceHash: vxf.Hash(m.Body, v.HashAlg), MaxOwnerMessageSize: 1000}
			return vxs.Reply(200, "Bearer t", out(vxf.Marshal(sign(in(vxf.Marshal(p)), fs.UnprotectedHeader{CUPHNonce: &c.NonceTO2ProveDv61, CUPHOwnerPubKey: &v.OwnerPub[1]}, v.OwnerKey(), v.Sg)))), nil
		case 62:
			vx.Assume(inner == 1)
			return vxs.Reply(200, "Bearer t", out(vxf.Marshal(fs.OVNextEntry63{OVEntryNum: 0, OVEntry: v.V.OVEntryArray[0]}))), nil
		case 64:
			p := fs.TO2SetupDevicePayload{RendezvousInfo: vxf.SomeRv(), ReplacementGuid: guid(1), NonceTO2SetupDv: c.NonceTO2SetupDv64, ReplacementOwner2Key: v.OwnerPub[1]}
			r = out(vxf.Marshal(sign(in(vxf.Marshal(p)), fs.UnprotectedHeader{}, v.OwnerKey(), v.Sg)))
			k = c.SessionKey
		case 66:
			vx.Assume(inner > 0)
			sz := uint16(1234)
			r = out(vxf.Marshal(fs.OwnerServiceInfoReady67{MaxDeviceServiceInfoSz: &sz}))
		case 68:
			vx.Assume(inner > 0)
			r = out(vxf.Marshal(fs.OwnerServiceInfo69{IsDone: true, ServiceInfo: []fs.ServiceInfoKV{{ServiceInfoKey: "a:b", ServiceInfoVal: []byte{1}}}}))
		case 70:
			vx.Assume(inner > 0)
			r = out(vxf.Marshal(fs.Done271{NonceTO2SetupDv: c.NonceTO2SetupDv64}))
		}
		b, err := fs.AddEncryptionWrapping(r, k, c.CipherSuiteName)
		if err != nil {
			panic(err)
		}
		if inner == 2 {
			b = mangled(b, max)
		}
		return vxs.Reply(200, "", b), nil
	})
	p, msg := vx.Try(func() {
		switch cmd {
		case 60:
			_, _, err = c.HelloDevice60(testcom.NULL_TEST)
		case 62:
			_, _, err = c.GetOVNextEntry62(0, testcom.NULL_TEST)
		case 64:
			_, _, err = c.ProveDevice64(testcom.NULL_TEST)
		case 66:
			_, _, err = c.DeviceServiceInfoReady66(testcom.NULL_TEST)
		case 68:
			_, _, err = c.DeviceServiceInfo68(fs.DeviceServiceInfo68{ServiceInfo: vxs.SIMs()}, testcom.NULL_TEST)
		case 70:
			_, _, err = c.Done70(testcom.NULL_TEST)
		}
	})
	vx.Assert(!p, "no answer crashes the client: "+msg)
	vx.Expect("refused")
	if err != nil {
		vx.Reach("refused")
	}
}

// H_same_key: two owner keys are the same exactly when their kind, their encoding and every byte of them are.
func H_same_key() {
	n := []int{0, 1, 3, 91}[vx.Choose("length", 4)]
	m := n
	if vx.Bool("longer") {
		m++
	}
	a := fs.FdoPublicKey{PkType: fs.FdoPkType(vx.Int("kind", 1, 23)), PkEnc: fs.FdoPkEnc(vx.Int("encoding", 0, 3)), PkBody: vx.Bytes("key", n)}
	b := fs.FdoPublicKey{PkType: fs.FdoPkType(vx.Int("other kind", 1, 23)), PkEnc: fs.FdoPkEnc(vx.Int("other encoding", 0, 3)), PkBody: vx.Bytes("other key", m)}
	same := n == m && vx.And(vx.And(a.PkType == b.PkType, a.PkEnc == b.PkEnc), vx.EqBytes(a.PkBody.([]byte), b.PkBody.([]byte)))
	err := a.Equal(b)
	if same {
		vx.Assert(err == nil, "a key is the same as itself")
	} else {
		vx.Assert(err != nil, "keys that differ are not the same")
	}
}
