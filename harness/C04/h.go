package main

import (
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

func guid(name string) (g fs.FdoGuid) {
	copy(g[:], vx.Bytes(name, 16))
	return
}

func voucher(n int) *vxf.Voucher {
	sg := vxf.SgTypes[vx.Choose("owner key type", vx.Bound("owner key types", 2, 4))]
	return vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: sg, N: n, Guid: guid("guid"), Secret: []byte("0123456789abcdef")})
}

// served is the claim that the index is answered with the entry of that index, or with an error when it is out of range.
func served(d *vxs.Dev, i uint8, n int) {
	before := vxs.Snap(d.S.DB, false)
	rec := d.Entry62(i)
	if int(i) >= n {
		vxs.IsError(rec, 62)
		vx.Assert(vxs.Same(before, vxs.Snap(d.S.DB, false)), "a refused index does not advance the session")
		return
	}
	vx.Assert(vxs.OK(rec, "63"), "an index in range is served")
	vx.Assert(vx.EqBytes(rec.Body, vxf.Marshal(fs.OVNextEntry63{OVEntryNum: i, OVEntry: d.V.V.OVEntryArray[i]})), "an index is answered with the entry of that index, and with itself")
	var m fs.OVNextEntry63
	vx.Assert(fs.CborCust.Unmarshal(rec.Body, &m) == nil, "the answer decodes")
	vx.Assert(m.OVEntryNum == i && vx.EqBytes(vxf.Marshal(m.OVEntry), vxf.Marshal(d.V.V.OVEntryArray[i])), "the entry read from the answer is the voucher's")
}

// Any index after a hello, and any second one.
func H_index() {
	n := vx.Choose("entries", vx.Bound("entries", 3, 5)) + 1
	v := voucher(n)
	s := vxs.NewDO()
	s.Add(v)
	d := s.Hello60(v, fs.KEX_ECDH256, fs.CIPHER_A128GCM)
	vx.Assert(int(d.Hdr.NumOVEntries) == n, "the number of entries announced is the voucher's")
	vx.Assert(vx.EqBytes(d.Hdr.OVHeader, v.V.OVHeaderTag), "the header announced is the voucher's")
	vx.Assert(vx.EqBytes(vxf.Marshal(d.Hdr.HMac), vxf.Marshal(v.V.OVHeaderHMac)), "the header HMAC announced is the voucher's")
	m := vx.Choose("requests", vx.Bound("requests", 2, 3)) + 1
	for k := 0; k < m; k++ {
		served(d, vx.Byte("index"), n)
	}
	if m > 1 {
		vx.Reach("again")
	}
	vx.Expect("again")
}

// A voucher with up to 255 entries: the entries themselves do not matter.
func H_many() {
	vx.Option("concrete-rand", 1)
	v := voucher(1)
	n := []int{1, 2, 127, 128, 129, 254, 255}[vx.Choose("entries", vx.Bound("sizes", 7, 7))]
	e := v.V.OVEntryArray[0]
	v.V.OVEntryArray = nil
	for i := 0; i < n; i++ {
		x := e
		x.Signature = []byte{byte(i)}
		v.V.OVEntryArray = append(v.V.OVEntryArray, x)
	}
	s := vxs.NewDO()
	s.Add(v)
	d := s.Hello60(v, fs.KEX_ECDH256, fs.CIPHER_A128GCM)
	vx.Assert(int(d.Hdr.NumOVEntries) == n, "the number of entries announced is the voucher's")
	var i uint8
	switch vx.Choose("index", 5) {
	case 0:
		i = 0
	case 1:
		i = uint8(n - 1)
	case 2:
		i = uint8(n)
	case 3:
		i = 255
	case 4:
		i = 127
	}
	served(d, i, n)
}

// An index beyond one byte, or no index at all, is refused.
func H_not_an_index() {
	n := vx.Choose("entries", 3)
	v := voucher(n)
	s := vxs.NewDO()
	d := s.At(v, []fs.FdoCmd{61, 63}[vx.Choose("last", 2)], fs.CIPHER_A128GCM)
	var body []byte
	switch vx.Choose("body", 3) {
	case 0:
		i := vx.U64("index")
		vx.Assume(i > 255)
		body = vxf.Marshal([]uint64{i})
	case 1:
		i := vx.U32("index")
		body = vxf.Marshal([]int64{-1 - int64(i)})
	case 2:
		body = vxf.Marshal([]string{"0"})
	}
	before := vxs.Snap(s.DB, false)
	vxs.IsError(s.Post(62, &d.Token, body), 62)
	vx.Assert(vxs.Same(before, vxs.Snap(s.DB, false)), "a refused index does not advance the session")
}

// Each session serves the voucher of its own device.
func H_two_devices() {
	vx.Option("concrete-rand", 1)
	s := vxs.NewDO()
	a := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 2, Guid: guid("guid"), Secret: []byte("0123456789abcdef")})
	b := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: guid("guid b"), Secret: []byte("0123456789abcdef")})
	vx.Assume(a.H.OVGuid != b.H.OVGuid)
	s.Add(a)
	s.Add(b)
	x := s.Hello60(a, fs.KEX_ECDH256, fs.CIPHER_A128GCM)
	y := s.Hello60(b, fs.KEX_ECDH256, fs.CIPHER_A128GCM)
	served(x, vx.Byte("index a"), 2)
	served(y, vx.Byte("index b"), 1)
	served(x, vx.Byte("index a"), 2)
}
