package main

import (
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
)

func must(err error, label string) { vx.Assert(err == nil, label) }

// mapped never crashes.
func mapped(d fs.RendezvousDirective) (m fs.MappedRVDirective, err error) {
	crashed, _ := vx.Try(func() { m, err = fs.NewMappedRVDirective(d) })
	vx.Assert(!crashed, "mapping does not crash")
	return
}

// Whatever a voucher header's rendezvous information holds, it is read back as written.
func H_roundtrip() {
	var rv fs.RendezvousInfo
	for i := vx.Choose("directives", 3); i > 0; i-- {
		d := fs.RendezvousDirective{}
		for j := vx.Choose("instructions", vx.Bound("instructions", 3, 4)); j > 0; j-- {
			d.AddInstr(fs.RendezvousInstr{Key: fs.RVVariable(vx.Byte("variable")), Value: vx.Bytes("value", vx.Choose("length", vx.Bound("value bytes", 3, 4)))})
		}
		rv = append(rv, d)
	}
	h := fs.OwnershipVoucherHeader{OVHProtVer: 101, OVRvInfo: rv}
	var r fs.OwnershipVoucherHeader
	b, err := fs.CborCust.Marshal(h)
	must(err, "a header encodes")
	if len(rv) == 0 {
		return
	}
	must(fs.CborCust.Unmarshal(b, &r), "a header decodes")
	vx.Assert(len(r.OVRvInfo) == len(rv), "every directive is read back")
	for i := range rv {
		vx.Assert(len(r.OVRvInfo[i]) == len(rv[i]), "every instruction is read back")
		for j := range rv[i] {
			vx.Assert(r.OVRvInfo[i][j].Key == rv[i][j].Key, "the variable is read back")
			vx.Assert(vx.EqBytes(r.OVRvInfo[i][j].Value, rv[i][j].Value), "the value is read back")
		}
	}
}

// again is the directive after a journey through a voucher header.
func again(d fs.RendezvousDirective) fs.RendezvousDirective {
	var r fs.RendezvousInfo
	must(fs.CborCust.Unmarshal(vxf.Marshal(fs.RendezvousInfo{d}), &r), "a directive decodes")
	vx.Assert(len(r) == 1, "a directive is read back")
	return r[0]
}

var dns = "d.example"

func host() fs.RendezvousInstr { return fs.NewRendezvousInstr(fs.RVDns, dns) }

// others tells that only the variables in set have been set.
func others(m fs.MappedRVDirective, set ...fs.RVVariable) {
	has := func(v fs.RVVariable) bool {
		for _, s := range set {
			if s == v {
				return true
			}
		}
		return false
	}
	for v, got := range map[fs.RVVariable]bool{
		fs.RVDevOnly: m.RVDevOnly, fs.RVOwnerOnly: m.RVOwnerOnly, fs.RVIPAddress: len(m.RVIPAddresses) != 0,
		fs.RVDevPort: m.RVDevPort != nil, fs.RVOwnerPort: m.RVOwnerPort != nil, fs.RVDns: m.RVDns != nil,
		fs.RVSvCertHash: m.RVSvCertHash != nil, fs.RVClCertHash: m.RVClCertHash != nil, fs.RVUserInput: m.RVUserInput,
		fs.RVWifiSsid: m.RVWifiSsid != nil, fs.RVWifiPw: m.RVWifiPw != nil, fs.RVMedium: m.RVMedium != nil,
		fs.RVProtocol: m.RVProtocol != nil, fs.RVDelaysec: m.RVDelaysec != nil, fs.RVBypass: m.RVBypass, fs.RVExtRV: m.RVExtRV != nil} {
		vx.Assert(got == has(v), "exactly the variables of the directive are set")
	}
}

// Each variable with every value of its type.
func H_values() {
	k := fs.RVVariable(vx.Choose("variable", 16))
	n := vx.Choose("length", vx.Bound("text bytes", 4, 9))
	var in fs.RendezvousInstr
	var check func(m fs.MappedRVDirective) bool
	set := []fs.RVVariable{fs.RVDns, k}
	switch k {
	case fs.RVDevOnly, fs.RVOwnerOnly, fs.RVUserInput, fs.RVBypass:
		in = fs.RendezvousInstr{Key: k}
		check = func(m fs.MappedRVDirective) bool { return true }
	case fs.RVIPAddress:
		a := vx.Bytes("address", []int{4, 16}[vx.Choose("family", 2)])
		in = fs.NewRendezvousInstr(k, a)
		check = func(m fs.MappedRVDirective) bool {
			return len(m.RVIPAddresses) == 1 && vx.EqBytes(m.RVIPAddresses[0], a)
		}
	case fs.RVDevPort, fs.RVOwnerPort:
		p := vx.U16("port")
		in = fs.NewRendezvousInstr(k, p)
		check = func(m fs.MappedRVDirective) bool {
			if k == fs.RVDevPort {
				return *m.RVDevPort == p
			}
			return *m.RVOwnerPort == p
		}
	case fs.RVDns, fs.RVWifiSsid, fs.RVWifiPw:
		b := vx.Bytes("text", n)
		for _, c := range b {
			vx.Assume(c < 0x80)
		}
		s := string(b)
		in = fs.NewRendezvousInstr(k, s)
		check = func(m fs.MappedRVDirective) bool {
			switch k {
			case fs.RVDns:
				return vx.EqStr(*m.RVDns, s)
			case fs.RVWifiSsid:
				return vx.EqStr(*m.RVWifiSsid, s)
			}
			return vx.EqStr(*m.RVWifiPw, s)
		}
	case fs.RVSvCertHash, fs.RVClCertHash:
		h := fs.HashOrHmac{Type: []fs.HashType{fs.HASH_SHA256, fs.HASH_SHA384, 5, -300}[vx.Choose("type", 4)], Hash: vx.Bytes("hash", n)}
		in = fs.NewRendezvousInstr(k, h)
		check = func(m fs.MappedRVDirective) bool {
			g := m.RVSvCertHash
			if k == fs.RVClCertHash {
				g = m.RVClCertHash
			}
			return vx.And(g.Type == h.Type, vx.EqBytes(g.Hash, h.Hash))
		}
	case fs.RVMedium:
		v := fs.RVMediumValue(vx.Byte("medium"))
		in = fs.NewRendezvousInstr(k, v)
		check = func(m fs.MappedRVDirective) bool { return *m.RVMedium == v }
	case fs.RVProtocol:
		v := fs.RVProtocolValue(vx.Byte("protocol"))
		in = fs.NewRendezvousInstr(k, v)
		check = func(m fs.MappedRVDirective) bool { return *m.RVProtocol == v }
	case fs.RVDelaysec:
		v := vx.U32("delay")
		in = fs.NewRendezvousInstr(k, v)
		check = func(m fs.MappedRVDirective) bool { return *m.RVDelaysec == v }
	case fs.RVExtRV:
		v := []interface{}{"mech", uint64(7)}[:vx.Choose("parts", 3)]
		in = fs.NewRendezvousInstr(k, v)
		check = func(m fs.MappedRVDirective) bool {
			g := *m.RVExtRV
			return len(g) == len(v) && (len(v) < 1 || g[0] == v[0]) && (len(v) < 2 || g[1] == v[1])
		}
	}
	d := fs.RendezvousDirective{in}
	if k != fs.RVDns {
		d = fs.RendezvousDirective{host(), in}
		if vx.Bool("first") {
			d = fs.RendezvousDirective{in, host()}
		}
	}
	m, err := mapped(again(d))
	if k.IsBoolean() {
		must(err, "a directive with a flag is accepted")
	} else {
		must(err, "a directive with a value of the prescribed type is accepted")
	}
	others(m, set...)
	vx.Assert(check(m), "the mapped value is the one in the directive")
	if k != fs.RVDns {
		vx.Assert(*m.RVDns == dns, "the other variables keep their values")
	}
}

// A value that is not of the prescribed type is rejected.
func H_wrong_type() {
	k := fs.RVVariable(vx.Choose("variable", 16))
	var val []byte
	n := vx.Choose("length", vx.Bound("value bytes, wrong type", 2, 3)+1)
	val = vx.Bytes("value", n)
	d := fs.RendezvousDirective{{Key: k, Value: val}}
	if k != fs.RVDns && k != fs.RVIPAddress {
		d = append(d, host())
	}
	if n == 0 {
		if !k.IsBoolean() {
			_, err := mapped(d)
			vx.Assert(err != nil, "a variable without its value is rejected")
		}
		return
	}
	major := val[0] >> 5
	vx.Assume(major != 6) // tags are transparent
	for _, c := range val[1:] {
		vx.Assume(major != 4 || c>>5 != 6)
	}
	if major == 7 {
		vx.Assume(val[0]&31 >= 20 && val[0]&31 != 24)
	}
	m, err := mapped(d)
	if err != nil {
		return
	}
	want := byte(0)
	switch k {
	case fs.RVDns, fs.RVWifiSsid, fs.RVWifiPw:
		want = 3
	case fs.RVIPAddress:
		vx.Assert(major == 2 || major == 4, "an address is a byte string")
		return
	case fs.RVSvCertHash, fs.RVClCertHash, fs.RVExtRV:
		want = 4
	case fs.RVDevOnly, fs.RVOwnerOnly, fs.RVUserInput, fs.RVBypass:
		vx.Assert(false, "a flag with a value is rejected")
		return
	}
	vx.Assert(major == want, "a value of another type is rejected")
	if want != 0 {
		return
	}
	var v, size uint64
	switch val[0] & 31 {
	case 24:
		v, size = uint64(val[n-1]), 2
	case 25:
		v, size = uint64(val[1])<<8|uint64(val[n-1]), 3
	default:
		v, size = uint64(val[0]&31), 1
	}
	vx.Assert(uint64(n) == size, "a value with trailing data is rejected")
	switch k {
	case fs.RVDevPort:
		vx.Assert(uint64(*m.RVDevPort) == v, "the number is the one in the directive")
	case fs.RVOwnerPort:
		vx.Assert(uint64(*m.RVOwnerPort) == v, "the number is the one in the directive")
	case fs.RVMedium:
		vx.Assert(uint64(*m.RVMedium) == v, "the number is the one in the directive")
	case fs.RVProtocol:
		vx.Assert(uint64(*m.RVProtocol) == v, "the number is the one in the directive")
	case fs.RVDelaysec:
		vx.Assert(uint64(*m.RVDelaysec) == v, "the number is the one in the directive")
	}
}

// Numbers that do not fit their variable.
func H_too_large() {
	v := vx.U64("number")
	k := []fs.RVVariable{fs.RVDevPort, fs.RVOwnerPort, fs.RVMedium, fs.RVProtocol, fs.RVDelaysec}[vx.Choose("variable", 5)]
	max := uint64(0xffff)
	if k == fs.RVMedium || k == fs.RVProtocol {
		max = 0xff
	} else if k == fs.RVDelaysec {
		max = 0xffffffff
	}
	_, err := mapped(fs.RendezvousDirective{host(), fs.NewRendezvousInstr(k, v)})
	vx.Assert((err == nil) == (v <= max), "a number is accepted exactly when it fits its variable")
}

func H_address_length() {
	n := vx.Choose("length", vx.Bound("address bytes", 20, 34))
	m, err := mapped(fs.RendezvousDirective{fs.NewRendezvousInstr(fs.RVIPAddress, vx.Bytes("address", n)), host()})
	vx.Assert((err == nil) == (n == 4 || n == 16), "an address is accepted exactly when it has 4 or 16 bytes")
	vx.Assert(err != nil || len(m.RVIPAddresses) == 1, "the address is mapped")
}

// Repeated variables, missing addresses, contradicting flags.
func H_combination() {
	a, b := fs.RVVariable(vx.Choose("first", 16)), fs.RVVariable(vx.Choose("second", 16))
	val := func(k fs.RVVariable, i byte) fs.RendezvousInstr {
		switch k {
		case fs.RVDevOnly, fs.RVOwnerOnly, fs.RVUserInput, fs.RVBypass:
			return fs.RendezvousInstr{Key: k}
		case fs.RVIPAddress:
			return fs.NewRendezvousInstr(k, []byte{10, 0, 0, i})
		case fs.RVDns, fs.RVWifiSsid, fs.RVWifiPw:
			return fs.NewRendezvousInstr(k, "x")
		case fs.RVSvCertHash, fs.RVClCertHash:
			return fs.NewRendezvousInstr(k, fs.HashOrHmac{Type: fs.HASH_SHA256, Hash: []byte{1}})
		case fs.RVExtRV:
			return fs.NewRendezvousInstr(k, []interface{}{"x"})
		}
		return fs.NewRendezvousInstr(k, i)
	}
	d := fs.RendezvousDirective{val(a, 1), val(b, 2)}
	withHost := vx.Bool("host")
	if withHost {
		d = append(d, fs.NewRendezvousInstr(fs.RVIPAddress, []byte{10, 0, 0, 3}))
	}
	m, err := mapped(again(d))
	addressed := withHost || a == fs.RVIPAddress || b == fs.RVIPAddress || a == fs.RVDns || b == fs.RVDns
	both := a == fs.RVDevOnly && b == fs.RVOwnerOnly || a == fs.RVOwnerOnly && b == fs.RVDevOnly
	repeated := a == b && a != fs.RVIPAddress
	vx.Assert((err == nil) == (addressed && !both && !repeated), "a directive is accepted exactly when it has an address, no repeated variable and is for someone")
	if err != nil {
		return
	}
	var ips []byte
	for i, k := range []fs.RVVariable{a, b, fs.RVIPAddress}[:len(d)] {
		if k == fs.RVIPAddress {
			ips = append(ips, byte(i+1))
		}
	}
	vx.Assert(len(ips) == len(m.RVIPAddresses), "every address of the directive is mapped")
	for i := range ips {
		vx.Assert(m.RVIPAddresses[i][3] == ips[i], "the addresses keep their order")
	}
	set := []fs.RVVariable{a, b}
	if withHost {
		set = append(set, fs.RVIPAddress)
	}
	others(m, set...)
}

// The directives for the owner and for the device.
func H_audience() {
	var rv fs.RendezvousInfo
	n := 1 + vx.Choose("directives", vx.Bound("directives", 2, 3))
	flags := make([]int, n)
	for i := range flags {
		flags[i] = vx.Choose("flag", 3)
		d := fs.RendezvousDirective{fs.NewRendezvousInstr(fs.RVIPAddress, []byte{10, 0, 0, byte(i)})}
		if flags[i] == 1 {
			d = append(d, fs.RendezvousInstr{Key: fs.RVDevOnly})
		} else if flags[i] == 2 {
			d = append(d, fs.RendezvousInstr{Key: fs.RVOwnerOnly})
		}
		// what else the directive says does not matter
		switch vx.Choose("more", vx.Bound("other variables", 4, 6)) {
		case 1:
			d = append(d, fs.RendezvousInstr{Key: fs.RVBypass})
		case 2:
			d = append(d, fs.RendezvousInstr{Key: fs.RVUserInput})
		case 3:
			d = append(fs.RendezvousDirective{fs.NewRendezvousInstr(fs.RVOwnerPort, 80), fs.NewRendezvousInstr(fs.RVDevPort, 80)}, d...)
		case 4:
			d = append(d, fs.NewRendezvousInstr(fs.RVDelaysec, vx.U16("delay")), host())
		case 5:
			d = append(d, fs.NewRendezvousInstr(fs.RVMedium, vx.Byte("medium")), fs.NewRendezvousInstr(fs.RVProtocol, vx.Byte("protocol")))
		}
		rv = append(rv, d)
	}
	m, err := fs.GetMappedRVInfo(rv)
	must(err, "directives with a flag are accepted")
	vx.Assert(len(m) == n, "every directive is mapped")
	check := func(got fs.MappedRVInfo, skip int) {
		j := 0
		for i, f := range flags {
			if f == skip {
				continue
			}
			vx.Assert(j < len(got) && got[j].RVIPAddresses[0][3] == byte(i), "the directives for an audience are those not reserved for the other")
			j++
		}
		vx.Assert(j == len(got), "no directive reserved for the other is used")
	}
	check(m.GetOwnerOnly(), 1)
	check(m.GetDevOnly(), 2)
}

// One bad directive spoils the information.
func H_one_bad() {
	var rv fs.RendezvousInfo
	n := 1 + vx.Choose("directives", vx.Bound("directives, one bad", 8, 16))
	for i := 0; i < n; i++ {
		rv = append(rv, fs.RendezvousDirective{host()})
	}
	i := vx.Choose("bad", n)
	switch vx.Choose("fault", 4) {
	case 0:
		rv[i] = append(rv[i], fs.NewRendezvousInstr(fs.RVDevPort, "80"))
	case 1:
		rv[i] = append(rv[i], host())
	case 2:
		rv[i] = fs.RendezvousDirective{fs.NewRendezvousInstr(fs.RVDevPort, 80)}
	case 3:
		rv[i] = append(rv[i], fs.NewRendezvousInstr(fs.RVIPAddress, []byte{10, 0, 0, 1}), fs.NewRendezvousInstr(fs.RVIPAddress, []byte{10, 0, 0}))
	}
	_, err := fs.GetMappedRVInfo(rv)
	vx.Assert(err != nil, "information with a bad directive is rejected")
}

// A directive with a value of every variable, in any rotation of their order.
func H_full() {
	port, owner, delay := vx.U16("port"), vx.U16("owner port"), vx.U32("delay")
	medium, protocol := vx.Byte("medium"), vx.Byte("protocol")
	all := fs.RendezvousDirective{
		host(), fs.NewRendezvousInstr(fs.RVDevPort, port), fs.NewRendezvousInstr(fs.RVOwnerPort, owner),
		fs.NewRendezvousInstr(fs.RVIPAddress, []byte{10, 0, 0, 1}), {Key: fs.RVBypass},
		fs.NewRendezvousInstr(fs.RVSvCertHash, fs.HashOrHmac{Type: fs.HASH_SHA256, Hash: []byte{1}}),
		fs.NewRendezvousInstr(fs.RVClCertHash, fs.HashOrHmac{Type: fs.HASH_SHA384, Hash: []byte{2, 3}}),
		{Key: fs.RVUserInput}, fs.NewRendezvousInstr(fs.RVWifiSsid, "ssid"), fs.NewRendezvousInstr(fs.RVWifiPw, "pw"),
		fs.NewRendezvousInstr(fs.RVMedium, medium), fs.NewRendezvousInstr(fs.RVProtocol, protocol),
		fs.NewRendezvousInstr(fs.RVDelaysec, delay), {Key: []fs.RVVariable{fs.RVDevOnly, fs.RVOwnerOnly}[vx.Choose("audience", 2)]},
		fs.NewRendezvousInstr(fs.RVExtRV, []interface{}{"mech"}),
	}
	first := all[13].Key
	r := vx.Choose("rotation", len(all))
	d := append(append(fs.RendezvousDirective{}, all[r:]...), all[:r]...)
	m, err := mapped(again(d))
	must(err, "a directive with every variable is accepted")
	others(m, fs.RVDns, fs.RVDevPort, fs.RVOwnerPort, fs.RVIPAddress, fs.RVBypass, fs.RVSvCertHash, fs.RVClCertHash, fs.RVUserInput,
		fs.RVWifiSsid, fs.RVWifiPw, fs.RVMedium, fs.RVProtocol, fs.RVDelaysec, first, fs.RVExtRV)
	vx.Assert(*m.RVDns == dns && *m.RVWifiSsid == "ssid" && *m.RVWifiPw == "pw", "the mapped texts are those of the directive")
	vx.Assert(vx.And(*m.RVDevPort == port, *m.RVOwnerPort == owner), "the mapped ports are those of the directive")
	vx.Assert(vx.And(uint8(*m.RVMedium) == medium, vx.And(uint8(*m.RVProtocol) == protocol, *m.RVDelaysec == delay)), "the mapped numbers are those of the directive")
	vx.Assert(m.RVSvCertHash.Type == fs.HASH_SHA256 && len(m.RVSvCertHash.Hash) == 1 && m.RVClCertHash.Type == fs.HASH_SHA384 && len(m.RVClCertHash.Hash) == 2, "the mapped hashes are those of the directive")
	vx.Assert(len(m.RVIPAddresses) == 1 && len(*m.RVExtRV) == 1, "the mapped lists are those of the directive")
}

// Many addresses in a directive, and many directives.
func H_many() {
	n := 1 + vx.Choose("directives", vx.Bound("many directives", 6, 12))
	k := 1 + vx.Choose("addresses", vx.Bound("many addresses", 12, 24))
	var rv fs.RendezvousInfo
	for i := 0; i < n; i++ {
		var d fs.RendezvousDirective
		for j := 0; j < k; j++ {
			ip := []byte{10, byte(i), 0, byte(j)}
			if j%3 == 1 {
				ip = []byte{0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, byte(i), 0, byte(j)}
			}
			d.AddInstr(fs.NewRendezvousInstr(fs.RVIPAddress, ip))
		}
		rv = append(rv, d)
	}
	at, oct := vx.Choose("directive", n), vx.Byte("octet")
	rv[at][k-1] = fs.NewRendezvousInstr(fs.RVIPAddress, []byte{10, 1, 1, oct})
	var back fs.RendezvousInfo
	must(fs.CborCust.Unmarshal(vxf.Marshal(rv), &back), "a directive decodes")
	m, err := fs.GetMappedRVInfo(back)
	must(err, "directives with addresses are accepted")
	vx.Assert(len(m) == n, "every directive is mapped")
	for i := range m {
		vx.Assert(len(m[i].RVIPAddresses) == k, "every address of the directive is mapped")
		for j, ip := range m[i].RVIPAddresses {
			if i == at && j == k-1 {
				vx.Assert(vx.EqBytes(ip, []byte{10, 1, 1, oct}), "the addresses keep their order")
				continue
			}
			vx.Assert(ip[len(ip)-1] == byte(j), "the addresses keep their order")
		}
	}
	own := m.GetOwnerOnly()
	vx.Assert(len(own) == n && len(m.GetDevOnly()) == n, "a directive for everyone is for both")
}
