package main

import (
	"encoding/pem"
	"net/http"
	"os"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/fdomain"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

// H_run: the virtual device's TO2 command proves the device, and goes on, only while the owner shows a chain of
// entries from the device's manufacturer to the key it speaks with.
func H_run() {
	vx.Option("concrete-rand", 2)
	n := 1 + vx.Choose("entries", vx.Bound("entries", 2, 4))
	if vx.Choose("long", 2) == 1 { // a long voucher
		vx.Assume(n == 1)
		n = vx.Bound("entries of a long voucher", 9, 24)
	}
	sg := vxf.SgTypes[vx.Choose("owner key", vx.Bound("owner key types", 1, 2))]
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: sg, N: n, Guid: guid(1)})
	evil, evilPub := vxf.Key(sg)
	s := vxs.NewDO()
	s.Add(v)
	defer vxm.Dir()()
	vxm.PutFile("d.pem", pem.EncodeToMemory(&pem.Block{Type: fs.CREDENTIAL_PEM_TYPE, Bytes: vxf.Marshal(vxs.Cred(v))}))
	fault := vx.Choose("deviation", 15)
	at := vx.Choose("entry", n)
	if n > 4 && (fault < 8 || fault > 12) {
		vx.Assume(at == 0)
	}
	quiet := fault == 0 && vx.Bool("token once")
	var sent []fs.FdoCmd
	last := fs.FdoCmd(0) // the last message a correct device sends, 0 when none is last
	vxs.Net(func(m vxs.Sent) (*http.Response, error) {
		sent = append(sent, m.Cmd)
		vx.Assert(len(sent) < 40, "the exchange ends")
		rec := s.Answer(m)
		body := rec.Body
		if m.Cmd == 60 && fault >= 1 && fault <= 7 {
			var c fs.CoseSignature
			var p fs.TO2ProveOVHdrPayload
			if fs.CborCust.Unmarshal(body, &c) != nil || fs.CborCust.Unmarshal(c.Payload, &p) != nil {
				panic("bad answer")
			}
			key, pub := v.OwnerKey(), &v.OwnerPub[n]
			switch fault {
			case 1: // a stranger who has the voucher
				key, pub, last = evil, &evilPub, 62
			case 2: // without entries
				key, pub, last, p.NumOVEntries = evil, &evilPub, 60, 0
			case 3: // the owner, without entries
				last, p.NumOVEntries = 60, 0
			case 4: // the owner, keeping one entry back
				last, p.NumOVEntries = 62, uint8(n-1)
				if n == 1 {
					last = 60
				}
			case 5: // a stranger with the owner's key
				key, last = evil, 60
			case 6: // a voucher of another device
				o := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: sg, N: n, Guid: guid(1), Secret: []byte("another secret, of 32 bytes......")[:32]})
				last, p.OVHeader, p.HMac = 60, o.V.OVHeaderTag, o.V.OVHeaderHMac
			case 7: // the owner, announcing an entry that does not exist
				last, p.NumOVEntries = 62, uint8(n+1)
			}
			body = vxf.Marshal(sign(vxf.Marshal(p), fs.UnprotectedHeader{CUPHNonce: c.Unprotected.CUPHNonce, CUPHOwnerPubKey: pub}, key, sg))
		}
		if m.Cmd == 62 && fault >= 8 && fault <= 12 {
			var e fs.OVNextEntry63
			if fs.CborCust.Unmarshal(body, &e) != nil {
				panic("bad answer")
			}
			if int(e.OVEntryNum) == at {
				last = 62
				switch fault {
				case 8:
					e.OVEntryNum = vx.Byte("entry number")
					vx.Assume(e.OVEntryNum != byte(at))
				case 9: // signed by a stranger
					e.OVEntry = v.Entry(vxf.Hash(v.Prev(at), v.HashAlg), v.OwnerPub[at+1], evil)
				case 10: // of another voucher
					e.OVEntry = v.Entry(vxf.Hash(v.Prev(at)[1:], v.HashAlg), v.OwnerPub[at+1], v.Owner[at])
				case 11: // naming a stranger
					e.OVEntry = v.Entry(vxf.Hash(v.Prev(at), v.HashAlg), evilPub, v.Owner[at])
				case 12:
					b := append([]byte{}, e.OVEntry.Signature...)
					b[vx.Choose("signature byte", 2)*(len(b)-1)] ^= byte(vx.Int("flip", 1, 255))
					e.OVEntry.Signature = b
				}
				body = vxf.Marshal(e)
			}
		}
		if fault == 13 && m.Cmd == 64 { // a proof that is not answered
			last = 64
			return nil, vxs.ErrNet
		}
		if fault == 14 && m.Cmd == 62 { // an error for the entry
			last = 62
			return vxs.Reply(500, "", vxf.Marshal(fs.FdoError{EMErrorCode: 500, EMPrevMsgID: 62, EMErrorStr: "no", EMErrorTs: 1})), nil
		}
		tok := rec.H.Get("Authorization")
		if m.Cmd != 60 && quiet { // the token is given once
			tok = ""
		}
		return vxs.Reply(rec.Code, tok, body), nil
	})
	os.Args = []string{"fdo", "iop", "to2", "http://do", "d.pem"}
	p, msg := vx.Try(fdomain.Main)
	vx.Assert(!p, "the device does not crash: "+msg)
	vx.Assert(len(sent) > 0, "the device sends a hello")
	got := sent[len(sent)-1]
	if fault == 0 {
		last = 70
	}
	vx.Assert(last != 0, "the deviation takes place")
	vx.Assert(got <= last, "a deviation ends the exchange")
	vx.Assert(got >= last, "the exchange goes on while the owner is authentic")
}
