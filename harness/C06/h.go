package main

import (
	"context"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/do/to2"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

func voucher() *vxf.Voucher {
	vx.Option("concrete-rand", 1)
	return vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: fs.FdoGuid{0xa0, 1}, Rv: vxf.SomeRv(), Secret: []byte("0123456789abcdef")})
}

// owner gives the session l owner messages of any values; from says how many were sent.
func owner(s *vxs.DO, d *vxs.Dev, l, from int) []fs.ServiceInfoKV {
	kv := []fs.ServiceInfoKV{}
	for i := 0; i < l; i++ {
		kv = append(kv, fs.ServiceInfoKV{ServiceInfoKey: fs.SIM_ID([]string{"own:a", "own:b"}[i%2]), ServiceInfoVal: vx.Bytes("owner value", 2)})
	}
	e := s.Session(d.Token)
	e.OwnerSIMs = kv
	e.OwnerSIMsSendCounter = uint16(from)
	s.Put(d.Token, *e)
	return kv
}

func answer(d *vxs.Dev, rec *vxm.Rec) fs.OwnerServiceInfo69 {
	vx.Assert(vxs.OK(rec, "69"), "service info in turn is accepted")
	var a fs.OwnerServiceInfo69
	vx.Assert(fs.CborCust.Unmarshal(d.Dec(rec), &a) == nil, "the answer to service info decodes")
	return a
}

// refused is the claim that a round was refused and changed nothing.
func refused(s *vxs.DO, rec *vxm.Rec, before []vxm.KV) {
	vxs.IsError(rec, 68)
	vx.Assert(vxs.Same(before, vxs.Snap(s.DB, false)), "a refused round changes nothing")
}

// Every run of the exchange: the device decides in each round whether it has more to say.
func H_rounds() {
	s := vxs.NewDO()
	v := voucher()
	s.Add(v)
	d := s.At(v, 67, []fs.CipherSuiteName{fs.CIPHER_A128GCM, fs.CIPHER_COSE_AES128_CTR}[vx.Choose("suite", vx.Bound("suites", 1, 2))])
	l := vx.Choose("owner messages", vx.Bound("owner messages + 1", 5, 6))
	own := owner(s, d, l, 0)
	info := vxs.SIMs()
	cut := vx.Choose("cut", 2) * 4
	sent, told, rounds, done := 0, 0, vx.Bound("rounds beyond the owner's messages", 3, 4)+l, false
	told = 0
	for r := 0; r < rounds; r++ {
		more := vx.Bool("more")
		var l68 []fs.ServiceInfoKV
		switch {
		case told == len(info):
		case more && told < cut:
			l68 = info[told:cut]
		case !more:
			l68 = info[told:]
		}
		before := vxs.Snap(s.DB, false)
		rec := d.Info68(more, l68)
		if done {
			refused(s, rec, before)
			continue
		}
		a := answer(d, rec)
		told += len(l68)
		if more {
			vx.Assert(len(a.ServiceInfo) == 0, "nothing is sent while the device has more to send")
			vx.Assert(!a.IsMoreServiceInfo, "no more is announced while the device has more to send")
			vx.Assert(!a.IsDone, "done is not announced while the device has more to send")
			continue
		}
		if sent < l {
			vx.Assert(len(a.ServiceInfo) == 1, "each round delivers one owner message")
			vx.Assert(vx.And(a.ServiceInfo[0].ServiceInfoKey == own[sent].ServiceInfoKey, vx.EqBytes(a.ServiceInfo[0].ServiceInfoVal, own[sent].ServiceInfoVal)), "owner messages are delivered in order, unchanged")
			sent++
		} else {
			vx.Assert(len(a.ServiceInfo) == 0, "no owner message is sent twice")
		}
		done = sent == l
		vx.Assert(a.IsDone == done, "done is announced with the last owner message and not before")
		vx.Assert(a.IsMoreServiceInfo == !done, "more is announced until the last owner message")
	}
	vx.Observe("sent", sent)
}

// One round at any point of a long exchange.
func H_step() {
	s := vxs.NewDO()
	v := voucher()
	s.Add(v)
	d := s.At(v, 69, fs.CIPHER_A128GCM)
	l := []int{9, 257, 300}[vx.Choose("owner messages", vx.Bound("long exchanges", 2, 3))]
	from := []int{1, l / 2, l - 3, l - 2, l - 1, 255, 256}[vx.Choose("sent", 7)]
	vx.Assume(from < l)
	kv := make([]fs.ServiceInfoKV, l)
	for i := range kv {
		kv[i] = fs.ServiceInfoKV{ServiceInfoKey: "own:m", ServiceInfoVal: []byte{byte(i), byte(i >> 8)}}
	}
	e := s.Session(d.Token)
	e.OwnerSIMs, e.OwnerSIMsSendCounter, e.DeviceSIMs = kv, uint16(from), vxs.SIMs()
	s.Put(d.Token, *e)
	for i := from; i < l && i < from+3; i++ {
		a := answer(d, d.Info68(false, []fs.ServiceInfoKV{}))
		vx.Assert(len(a.ServiceInfo) == 1 && vx.EqBytes(a.ServiceInfo[0].ServiceInfoVal, kv[i].ServiceInfoVal), "owner messages are delivered in order, unchanged")
		vx.Assert(a.IsDone == (i == l-1), "done is announced with the last owner message and not before")
		vx.Assert(a.IsMoreServiceInfo == (i != l-1), "more is announced until the last owner message")
	}
}

// What message 66 makes of the server's settings is what the rounds deliver.
func H_ready() {
	db := vxm.OpenDB()
	on := vx.Bool("interop")
	// a list of other devices, with this one at any place or none
	n := vx.Choose("devices", vx.Bound("devices with owner messages + 1", 4, 6))
	at := vx.Choose("place", n+1)
	mine := at < n
	list := ""
	for i := 0; i < n; i++ {
		g, tok := "c0010000000000000000000000000000", "x"
		g = g[:31] + "0123456789"[i:i+1]
		if i == at {
			g, tok = "a0010000000000000000000000000000", "tok"
		}
		if i > 0 {
			list += ","
		}
		list += `["` + g + `","` + tok + `"]`
	}
	ctx := context.WithValue(context.Background(), fs.CFG_ENV_INTEROP_ENABLED, on)
	ctx = context.WithValue(ctx, fs.CFG_ENV_INTEROP_DO_TOKEN_MAPPING, "["+list+"]")
	s := vxs.DOWith(db, to2.NewDoTo2(db, ctx))
	v := voucher()
	s.Add(v)
	d := s.At(v, 65, fs.CIPHER_A128GCM)
	d.Ready66()
	var want []fs.ServiceInfoKV
	if on && mine {
		want = []fs.ServiceInfoKV{{ServiceInfoKey: fs.IOPLOGGER_SIM_ACTIVE, ServiceInfoVal: fs.CBOR_TRUE}, {ServiceInfoKey: fs.IOPLOGGER_SIM, ServiceInfoVal: []byte("tok")}}
	}
	got := 0
	for r := 0; ; r++ {
		var l []fs.ServiceInfoKV
		if r == 0 {
			l = vxs.SIMs()
		}
		a := answer(d, d.Info68(false, l))
		for _, m := range a.ServiceInfo {
			vx.Assert(got < len(want) && m.ServiceInfoKey == want[got].ServiceInfoKey && vx.EqBytes(m.ServiceInfoVal, want[got].ServiceInfoVal), "the owner's messages are those set up for the device")
			got++
		}
		vx.Assert(a.IsDone == (got == len(want)), "done is announced with the last owner message and not before")
		if a.IsDone {
			break
		}
		vx.Assert(r < 3, "the exchange ends")
	}
	before := vxs.Snap(s.DB, false)
	refused(s, d.Info68(vx.Bool("more after"), []fs.ServiceInfoKV{}), before)
}

// typed is whether b is the CBOR encoding of a value of the module message's type; sure is whether the claim is made.
func typed(id fs.SIM_ID, b []byte) (ok, sure bool) {
	m := b[0] >> 5
	if m == 6 {
		return false, false // tagged values are left open
	}
	if m != 7 && b[0]&0x1f > 23 {
		return false, m != 0 && m != 3 // long forms of short values are left open
	}
	switch id {
	case fs.SIM_DEVMOD_ACTIVE:
		return len(b) == 1 && vx.Or(b[0] == 0xf4, b[0] == 0xf5), true
	case fs.SIM_DEVMOD_NUMMODULES:
		return len(b) == 1 && m == 0, true
	case fs.SIM_DEVMOD_MODULES:
		return false, true // no list fits
	}
	return m == 3 && int(b[0]&0x1f) == len(b)-1 && (len(b) == 1 || b[1] < 0x80), true
}

// A device must send every mandatory module message, each of its type.
func H_mandatory() {
	s := vxs.NewDO()
	v := voucher()
	s.Add(v)
	d := s.At(v, 67, fs.CIPHER_A128GCM)
	owner(s, d, 1, 0)
	info := vxs.SIMs()
	i := vx.Choose("message", len(info))
	ok := false
	parts := false
	switch vx.Choose("problem", 3) {
	case 0: // missing
		parts = vx.Bool("in two parts")
		info = append(info[:i:i], info[i+1:]...)
	case 1: // another value
		b := vx.Bytes("value", vx.Choose("length", vx.Bound("value bytes", 2, 2))+1)
		var sure bool
		ok, sure = typed(info[i].ServiceInfoKey, b)
		vx.Assume(sure)
		info[i].ServiceInfoVal = b
	case 2: // under another name
		n := []byte(info[i].ServiceInfoKey)
		x := vx.Byte("letter")
		vx.Assume(vx.And(x < 0x80, x != n[len(n)-1]))
		n[len(n)-1] = x
		info[i].ServiceInfoKey = fs.SIM_ID(n)
	}
	if parts {
		a := answer(d, d.Info68(true, info[:3]))
		vx.Assert(len(a.ServiceInfo) == 0 && !a.IsDone, "nothing is sent while the device has more to send")
		info = info[3:]
	}
	before := vxs.Snap(s.DB, false)
	rec := d.Info68(false, info)
	if ok {
		answer(d, rec)
		return
	}
	refused(s, rec, before)
}

// A modules message is a list of two numbers and module names.
func H_modules() {
	s := vxs.NewDO()
	v := voucher()
	s.Add(v)
	d := s.At(v, 67, fs.CIPHER_A128GCM)
	info := vxs.SIMs()
	item := func(name string, n int) any {
		switch vx.Choose(name, n) {
		case 0:
			return uint(1)
		case 1:
			return "m"
		case 2:
			return nil
		case 3:
			return true
		}
		return []byte{1}
	}
	l := []any{}
	n := vx.Choose("items", 5)
	ok := n >= 3
	for j := 0; j < n; j++ {
		x := item("item", vx.Bound("item types", 3, 5))
		l = append(l, x)
		if j < 2 {
			_, y := x.(uint)
			ok = ok && y
		} else {
			_, y := x.(string)
			ok = ok && y
		}
	}
	info[8].ServiceInfoVal = vxf.Marshal(l)
	before := vxs.Snap(s.DB, false)
	rec := d.Info68(false, info)
	if ok {
		answer(d, rec)
		return
	}
	refused(s, rec, before)
}

// A device's information comes in many parts, among any number of other messages: all of it counts.
func H_long() {
	s := vxs.NewDO()
	v := voucher()
	s.Add(v)
	d := s.At(v, 67, fs.CIPHER_A128GCM)
	owner(s, d, 1, 0)
	info := vxs.SIMs()
	n := []int{1, 7, 20, 60}[vx.Choose("other messages", vx.Bound("counts of other messages", 3, 4))]
	var l []fs.ServiceInfoKV
	if vx.Bool("a list of modules in parts") {
		// the first part has the first module's name, and more follow
		for i := 0; i < n; i++ {
			l = append(l, fs.ServiceInfoKV{ServiceInfoKey: fs.SIM_DEVMOD_MODULES, ServiceInfoVal: vxf.Marshal([]any{uint(i), uint(1), "m"})})
		}
	} else {
		for i := 0; i < n; i++ {
			l = append(l, fs.ServiceInfoKV{ServiceInfoKey: "other:m", ServiceInfoVal: []byte{byte(i) & 15}})
		}
	}
	if vx.Bool("others last") {
		l = append(info[:len(info):len(info)], l...)
	} else {
		l = append(l, info...)
	}
	fault, ok := vx.Choose("problem", 3), false
	name := info[vx.Choose("message", len(info))].ServiceInfoKey
	var kept []fs.ServiceInfoKV
	for _, m := range l {
		if m.ServiceInfoKey == name {
			switch fault {
			case 0: // missing
				continue
			case 1: // mistyped, the last one if there are many
				m.ServiceInfoVal = []byte{0x41, 0}
			case 2:
				ok = true
			}
		}
		kept = append(kept, m)
	}
	step := []int{3, 100}[vx.Choose("messages per round", 2)]
	for len(kept) > step {
		a := answer(d, d.Info68(true, kept[:step]))
		vx.Assert(len(a.ServiceInfo) == 0 && !a.IsDone && !a.IsMoreServiceInfo, "nothing is sent while the device has more to send")
		kept = kept[step:]
	}
	before := vxs.Snap(s.DB, false)
	rec := d.Info68(false, kept)
	vx.Observe("ok", ok)
	if !ok {
		refused(s, rec, before)
		return
	}
	a := answer(d, rec)
	vx.Assert(len(a.ServiceInfo) == 1 && a.IsDone, "done is announced with the last owner message and not before")
}
