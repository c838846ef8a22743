package main

import (
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

func guid(name string) (g fs.FdoGuid) {
	copy(g[:], vx.Bytes(name, 16))
	return
}

func voucher(dev fs.SgType, n int) *vxf.Voucher {
	return vxf.Build(vxf.Opt{DevSg: dev, Sg: fs.StSECP256R1, N: n, Guid: guid("guid"), Secret: []byte("0123456789abcdef")})
}

var cmds = []fs.FdoCmd{62, 64, 66, 68, 70}

// allowed is the message order of FDO 1.1.
func allowed(last, next fs.FdoCmd) bool {
	switch next {
	case 62:
		return vx.Or(last == 61, last == 63)
	case 64:
		return last == 63
	case 66:
		return last == 65
	case 68:
		return vx.Or(last == 67, last == 69)
	case 70:
		return last == 69
	}
	return false
}

// message is a correct message for the session, apart from its order.
func message(d *vxs.Dev, cmd fs.FdoCmd) []byte {
	switch cmd {
	case 62:
		return vxf.Marshal(fs.GetOVNextEntry62{GetOVNextEntry: 0})
	case 64:
		e := d.S.Session(d.Token)
		d.OwnerPub = d.V.OwnerPub[len(d.V.OwnerPub)-1]
		x, err := fs.GenerateXABKeyExchange(e.KexSuiteName, nil)
		vx.Assert(err == nil, "a key exchange starts")
		e.XAKex = *x
		d.S.Put(d.Token, *e)
		d.Hdr.XAKeyExchange = x.XAKeyExchange
		k := d.Key
		d.Exchange()
		m := vxf.Marshal(d.Sign(d.EAT(), d.V.DevKey, d.V.DevSg))
		_ = k
		return m
	case 66:
		return d.Enc(vxf.Marshal(fs.DeviceServiceInfoReady66{}))
	case 68:
		return d.Enc(vxf.Marshal(fs.DeviceServiceInfo68{IsMoreServiceInfo: vx.Bool("more"), ServiceInfo: vxs.SIMs()}))
	case 70:
		return d.Enc(vxf.Marshal(fs.Done70{NonceTO2ProveDv: d.ProveDv}))
	}
	return nil
}

func next(c fs.FdoCmd) string { return (c + 1).ToString() }

// refused is the claim that the message was refused and the store left as it was.
func refused(s *vxs.DO, rec *vxm.Rec, cmd fs.FdoCmd, before []vxm.KV) {
	vxs.IsError(rec, cmd)
	vx.Assert(vxs.Same(before, vxs.Snap(s.DB, false)), "a refused message does not advance the session")
}

// Every message after every last message.
func H_order() {
	s := vxs.NewDO()
	v := voucher(vxf.SgTypes[vx.Choose("device key type", 2)], 1)
	last := fs.FdoCmd(vx.Byte("last message"))
	d := s.At(v, last, fs.CIPHER_A128GCM)
	cmd := cmds[vx.Choose("message", len(cmds))]
	m := message(d, cmd)
	before := vxs.Snap(s.DB, false)
	rec := s.Post(cmd, &d.Token, m)
	if allowed(last, cmd) {
		vx.Assert(vxs.OK(rec, next(cmd)), "a correct message in order is accepted")
		e := s.Session(d.Token)
		vx.Assert(e != nil && e.PrevCMD == cmd+1, "an accepted message is recorded as the last one")
		vx.Reach("in order")
	} else {
		refused(s, rec, cmd, before)
		vx.Reach("out of order")
	}
	vx.Expect("in order")
	vx.Expect("out of order")
}

// A sequence of messages is accepted as long as each may follow the one before it.
func H_sequences() {
	s := vxs.NewDO()
	v := voucher(fs.StSECP256R1, 1)
	start := []fs.FdoCmd{61, 63, 65, 67, 69}[vx.Choose("start", 5)]
	d := s.At(v, start, fs.CIPHER_A128GCM)
	last := start
	done := false // the owner has finished its service info
	n := vx.Bound("messages", 3, 4)
	for i := 0; i < n; i++ {
		cmd := cmds[vx.Choose("message", len(cmds))]
		var m []byte
		more := false
		switch cmd {
		case 68:
			more = vx.Choose("more", 2) == 1
			m = d.Enc(vxf.Marshal(fs.DeviceServiceInfo68{IsMoreServiceInfo: more, ServiceInfo: vxs.SIMs()}))
		case 64:
			k := d.Key
			m = message(d, cmd)
			if !allowed(last, cmd) {
				d.Key = k
			}
		default:
			m = message(d, cmd)
		}
		before := vxs.Snap(s.DB, false)
		rec := s.Post(cmd, &d.Token, m)
		if allowed(last, cmd) && !(cmd == 68 && done) {
			vx.Assert(vxs.OK(rec, next(cmd)), "a correct message in order is accepted")
			last = cmd + 1
			if cmd == 68 && !more {
				done = true
			}
		} else {
			refused(s, rec, cmd, before)
		}
		vx.Assert(s.Session(d.Token).PrevCMD == last, "the session records the last accepted message")
	}
}

// The whole protocol, and nothing afterwards.
func H_complete() {
	s := vxs.NewDO()
	v := voucher(vxf.SgTypes[vx.Choose("device key type", 2)], vx.Choose("entries", 2)+1)
	s.Add(v)
	d := s.Hello60(v, fs.KEX_ECDH256, []fs.CipherSuiteName{fs.CIPHER_A128GCM, fs.CIPHER_COSE_AES128_CTR}[vx.Choose("suite", 2)])
	is := func(c fs.FdoCmd) {
		e := s.Session(d.Token)
		vx.Assert(e != nil && e.PrevCMD == c, "an accepted message is recorded as the last one")
	}
	is(61)
	d.Entries()
	is(63)
	d.Prove64()
	is(65)
	d.Ready66()
	is(67)
	vx.Assert(vxs.OK(d.Info68(false, vxs.SIMs()), "69"), "correct service info is accepted")
	is(69)
	vx.Assert(vxs.OK(d.Done70(), "71"), "a correct done is accepted")
	is(71)
	cmd := cmds[vx.Choose("message", len(cmds))]
	m := message(d, cmd)
	before := vxs.Snap(s.DB, false)
	refused(s, s.Post(cmd, &d.Token, m), cmd, before)
}

// A message with a bad session token or content type is refused in every state.
func H_token() {
	vx.Option("concrete-rand", 1)
	s := vxs.NewDO()
	v := voucher(fs.StSECP256R1, 1)
	cmd := cmds[vx.Choose("message", len(cmds))]
	last := map[fs.FdoCmd]fs.FdoCmd{62: 61, 64: 63, 66: 65, 68: 67, 70: 69}[cmd]
	d := s.At(v, last, fs.CIPHER_A128GCM)
	m := message(d, cmd)
	tok := &d.Token
	ct := "application/cbor"
	switch vx.Choose("problem", 7) {
	case 0:
		tok = nil
	case 1:
		t := "Bearer " + string(vx.Bytes("token", vx.Choose("length", 3)))
		tok = &t
	case 2: // no scheme
		t := d.Token[len("Bearer "):]
		tok = &t
	case 3: // one character differs
		b := []byte(d.Token)
		i := len(b) - 1 - vx.Choose("position", 8)
		c := vx.Byte("character")
		vx.Assume(c != b[i])
		b[i] = c
		t := string(b)
		tok = &t
	case 4: // a rendezvous session
		r := rv.NewSessionDB(s.DB)
		id, err := r.NewSessionEntry(rv.SessionEntry{Protocol: fs.To1, Guid: v.H.OVGuid})
		vx.Assert(err == nil, "a rendezvous session is stored")
		t := "Bearer " + string(id)
		tok = &t
	case 5: // a session of another protocol
		e := *s.Session(d.Token)
		e.Protocol = fs.FdoToProtocol(vx.Byte("protocol"))
		vx.Assume(e.Protocol != fs.To2)
		t := s.Begin(e)
		tok = &t
	case 6:
		ct = []string{"", "text/plain", "application/json", "application/cbor2", "Application/cborx"}[vx.Choose("content type", 5)]
	}
	before := vxs.Snap(s.DB, false)
	refused(s, s.PostAs(cmd, ct, tok, m), cmd, before)
}

// A hello needs the content type.
func H_hello() {
	s := vxs.NewDO()
	v := voucher(fs.StSECP256R1, 1)
	s.Add(v)
	m := vxf.Marshal(fs.HelloDevice60{MaxDeviceMessageSize: 1300, Guid: v.H.OVGuid, KexSuiteName: fs.KEX_ECDH256, CipherSuiteName: fs.CIPHER_A128GCM, EASigInfo: fs.SigInfo{SgType: v.DevSg, Info: []byte{}}})
	ct := []string{"", "text/plain", "application/json", "application/cbor2"}[vx.Choose("content type", 4)]
	before := vxs.Snap(s.DB, false)
	refused(s, s.PostAs(60, ct, nil, m), 60, before)
}
