package main

import (
	"net/http"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to1"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device/to2"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

// H_sent: every bad message a run sends is one a correct device refuses, and
// every good one is one it accepts.
func H_sent() {
	vx.Option("concrete-rand", 2)
	vx.Assumption("random choices of the fault generators are fixed (C20 treats them)")
	cmd := pick([]fs.FdoCmd{30, 32, 60, 62, 64, 66, 68, 70})
	d := newDevice(cmd)
	i := vx.Choose("test", len(d.run.Tests[cmd]))
	d.stand(cmd, i)
	d.save()
	status := 0
	vxs.Net(func(m vxs.Sent) (*http.Response, error) {
		if d.rv != nil {
			rec := d.rv.Answer(m)
			status = rec.Code
			return vxs.Reply(rec.Code, rec.H.Get("Authorization"), rec.Body), nil
		}
		rec := d.do.Answer(m)
		status = rec.Code
		return vxs.Reply(rec.Code, rec.H.Get("Authorization"), rec.Body), nil
	})
	accepted := true
	if d.rv != nil {
		c := to1.NewTo1Requestor(fs.SRVEntry{SrvURL: "http://rv"}, vxs.Cred(d.v))
		ack, _, err := c.HelloRV30(testcom.NULL_TEST)
		if cmd == 30 {
			accepted = err == nil
		} else {
			vx.Assert(err == nil, "a completed command is answered as usual")
			to1d, _, err := c.ProveToRV32(*ack, testcom.NULL_TEST)
			accepted = err == nil && fs.VerifyCoseSignature(*to1d, d.v.OwnerPub[len(d.v.OwnerPub)-1]) == nil
		}
	} else {
		accepted = d.onboard(cmd)
	}
	good := d.run.Tests[cmd][i] == testcom.FIDO_LISTENER_POSITIVE
	vx.Assert(status == 200, "a test message is sent, not an error")
	if good {
		vx.Assert(accepted, "a correct device accepts the message it has to pass")
	} else {
		vx.Assert(!accepted, "a correct device refuses a bad message: "+string(d.run.Tests[cmd][i]))
	}
}

// onboard runs TO2 up to and including cmd and reports whether a correct
// device accepts the answer to it.
func (d *device) onboard(cmd fs.FdoCmd) bool {
	c := to2.NewTo2Requestor(fs.SRVEntry{SrvURL: "http://do"}, vxs.Cred(d.v), fs.KEX_ECDH256, fs.CIPHER_A128GCM)
	for _, m := range d.seq {
		var err error
		switch m {
		case 60:
			_, _, err = c.HelloDevice60(testcom.NULL_TEST)
			if err == nil && c.AuthzHeader == "" {
				return false
			}
		case 62:
			pub := d.v.OwnerPub[0]
			for i := range d.v.V.OVEntryArray {
				e, _, err := c.GetOVNextEntry62(uint8(i), testcom.NULL_TEST)
				ok := err == nil && int(e.OVEntryNum) == i && fs.VerifyCoseSignature(e.OVEntry, pub) == nil
				if m == cmd || !ok {
					vx.Assert(m == cmd || ok, "a completed command is answered as usual")
					return ok
				}
				pub = d.v.OwnerPub[i+1]
			}
		case 64:
			_, _, err = c.ProveDevice64(testcom.NULL_TEST)
		case 66:
			_, _, err = c.DeviceServiceInfoReady66(testcom.NULL_TEST)
		case 68:
			_, _, err = c.DeviceServiceInfo68(fs.DeviceServiceInfo68{ServiceInfo: vxs.SIMs()}, testcom.NULL_TEST)
		case 70:
			_, _, err = c.Done70(testcom.NULL_TEST)
		}
		if m == cmd {
			return err == nil
		}
		vx.Assert(err == nil, "a completed command is answered as usual")
	}
	panic("no such message")
}
