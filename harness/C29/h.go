package main

import (
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/request"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
)

// Every draw of NewRandomInt(min,max) lies in [min,max], both ends can be drawn.
func H_int_range() {
	n := vx.Bound("max range width", 9, 40)
	lo := vx.Int("lo", -5, 5)
	w := vx.Choose("width", n)
	hi := lo + w
	var r int
	p, _ := vx.Try(func() { r = fdoshared.NewRandomInt(lo, hi) })
	vx.Assert(!p, "NewRandomInt does not crash on a non-empty range")
	vx.Assert(vx.And(r >= lo, r <= hi), "NewRandomInt stays in range")
}

func H_int_ends() {
	lo, hi := 3, 10
	r := fdoshared.NewRandomInt(lo, hi)
	vx.Expect("lower end drawn")
	vx.Expect("upper end drawn")
	if r == lo {
		vx.Reach("lower end drawn")
	}
	if r == hi {
		vx.Reach("upper end drawn")
	}
}

func guids(n int) fdoshared.FdoGuidList {
	l := fdoshared.FdoGuidList{}
	for i := 0; i < n; i++ {
		var g fdoshared.FdoGuid
		g[0], g[15] = 0xf1, byte(i+1)
		l = append(l, g)
	}
	return l
}

func distinctMembers(l, from fdoshared.FdoGuidList) bool {
	for i, a := range l {
		in := false
		for _, b := range from {
			if a == b {
				in = true
			}
		}
		if !in {
			return false
		}
		for j := 0; j < i; j++ {
			if l[j] == a {
				return false
			}
		}
	}
	return true
}

// Batches: exactly size distinct members, the population itself is left alone.
func H_batch() {
	n := vx.Choose("population", vx.Bound("population", 5, 8)) + 1
	size := vx.Choose("size", n+1)
	pop := guids(n)
	keep := guids(n)
	var b fdoshared.FdoGuidList
	p, _ := vx.Try(func() { b = pop.GetRandomBatch(size) })
	vx.Assert(!p, "GetRandomBatch does not crash")
	vx.Assert(len(b) == size, "GetRandomBatch returns the requested number")
	vx.Assert(distinctMembers(b, keep), "GetRandomBatch members are distinct members of the population")
	for i := range keep {
		vx.Assert(pop[i] == keep[i], "GetRandomBatch leaves the population unchanged")
	}
}

// More than the population holds: everything there is or nothing, never a crash or a repeat.
func H_batch_too_large() {
	n := vx.Choose("population", 4)
	size := n + 1 + vx.Choose("extra", 3)
	pop := guids(n)
	var b fdoshared.FdoGuidList
	p, _ := vx.Try(func() { b = pop.GetRandomBatch(size) })
	vx.Assert(!p, "GetRandomBatch does not crash on a too large request")
	vx.Assert(distinctMembers(b, guids(n)), "GetRandomBatch never repeats a member")
}

// Selections: exactly size distinct members, or the whole population.
func H_selection() {
	n := vx.Choose("population", 4)
	size := vx.Choose("size", 5)
	vx.Option("max-decisions", 12)
	var b fdoshared.FdoGuidList
	p, _ := vx.Try(func() { b = guids(n).GetRandomSelection(size) })
	vx.Assert(!p, "GetRandomSelection does not crash")
	vx.Assert(distinctMembers(b, guids(n)), "GetRandomSelection yields distinct members of the population")
	want := size
	if want > n {
		want = n
	}
	vx.Assert(len(b) == want, "GetRandomSelection yields the requested number")
}

// H_selection_long: no repeat among a longer selection, however far apart its members were drawn.
func H_selection_long() {
	n := vx.Bound("longer population", 6, 7)
	size := n - 1 - vx.Choose("more not selected", 2)
	vx.Option("free-ints", 100)
	vx.Option("split-ints", 1)
	vx.Option("max-decisions", size+2)
	var b fdoshared.FdoGuidList
	p, _ := vx.Try(func() { b = guids(n).GetRandomSelection(size) })
	vx.Assert(!p, "GetRandomSelection does not crash")
	vx.Assert(len(b) == size, "GetRandomSelection yields the requested number")
	vx.Assert(distinctMembers(b, guids(n)), "GetRandomSelection yields distinct members of the population")
}

// H_batch_long: batches of a large population.
func H_batch_long() {
	n := vx.Bound("large population", 40, 60)
	size := []int{7, 20, 39, 40, 41}[vx.Choose("size", 5)]
	want := min(size, n)
	vx.Option("free-ints", 1)
	vx.Option("split-ints", 1)
	b := guids(n).GetRandomBatch(size)
	vx.Assert(len(b) == want, "GetRandomBatch returns the requested number")
	vx.Assert(distinctMembers(b, guids(n)), "GetRandomBatch members are distinct members of the population")
	s := seeds(n/2, n-n/2)
	t := s.GetTestBatch(size)
	ref := guids(n)
	for i, k := range []fdoshared.SgType{fdoshared.StSECP256R1, fdoshared.StRSA2048} {
		from := [][]fdoshared.FdoGuid{ref[:n/2], ref[n/2:]}[i]
		vx.Assert(len(t[k]) == min(size, len(from)), "GetTestBatch has the requested number per type")
		vx.Assert(distinctMembers(t[k], from), "GetTestBatch members belong to their signature type")
	}
}

func seeds(a, b int) fdoshared.FdoSeedIDs {
	g := guids(a + b)
	return fdoshared.FdoSeedIDs{fdoshared.StSECP256R1: g[:a:a], fdoshared.StRSA2048: g[a:]}
}

// A test batch holds for each signature type a batch of that type's devices.
func H_test_batch() {
	a, b := vx.Choose("ec devices", 3), vx.Choose("rsa devices", 3)+1
	size := vx.Choose("size", 3) + 1
	s := seeds(a, b)
	ref := guids(a + b)
	var t fdoshared.FdoSeedIDs
	p, _ := vx.Try(func() { t = s.GetTestBatch(size) })
	vx.Assert(!p, "GetTestBatch does not crash")
	for k := range t {
		vx.Assert(k == fdoshared.StSECP256R1 || k == fdoshared.StRSA2048, "GetTestBatch keeps the population's signature types")
	}
	min := func(x int) int {
		if x < size {
			return x
		}
		return size
	}
	vx.Assert(len(t[fdoshared.StSECP256R1]) == min(a), "GetTestBatch has the requested number per type")
	vx.Assert(len(t[fdoshared.StRSA2048]) == min(b), "GetTestBatch has the requested number per type")
	vx.Assert(distinctMembers(t[fdoshared.StSECP256R1], ref[:a]), "GetTestBatch members belong to their signature type")
	vx.Assert(distinctMembers(t[fdoshared.StRSA2048], ref[a:]), "GetTestBatch members belong to their signature type")
}

func H_batch_every_member() {
	n := 3
	k := vx.Choose("member", n)
	pop := guids(n)
	b := pop.GetRandomBatch(1)
	lbl := []string{"batch has member 0", "batch has member 1", "batch has member 2"}
	for i := range lbl {
		vx.Expect(lbl[i])
	}
	if len(b) == 1 && b[0] == guids(n)[k] {
		vx.Reach(lbl[k])
	}
}

// One random GUID of all or of one signature type.
func H_test_guid() {
	a, b := vx.Choose("ec devices", 3), vx.Choose("rsa devices", 3)
	s := seeds(a, b)
	ref := guids(a + b)
	var g, g1 fdoshared.FdoGuid
	p, _ := vx.Try(func() { g = s.GetRandomTestGuid() })
	vx.Assert(!p, "GetRandomTestGuid does not crash")
	p, _ = vx.Try(func() { g1 = s.GetRandomTestGuidForSgType(fdoshared.StRSA2048) })
	vx.Assert(!p, "GetRandomTestGuidForSgType does not crash")
	if a+b > 0 {
		vx.Assert(ref.Contains(g), "GetRandomTestGuid yields a member")
	}
	if b > 0 {
		vx.Assert(ref[a:].Contains(g1), "GetRandomTestGuidForSgType yields a member of that type")
	}
	p, _ = vx.Try(func() { g1 = s.GetRandomTestGuidForSgType(fdoshared.StSECP384R1) })
	vx.Assert(!p, "GetRandomTestGuidForSgType does not crash on an absent type")
}

func H_test_guid_every_type() {
	s := seeds(1, 2)
	vx.Expect("ec device drawn")
	vx.Expect("first rsa device drawn")
	vx.Expect("last rsa device drawn")
	g := s.GetRandomTestGuid()
	switch g[15] {
	case 1:
		vx.Reach("ec device drawn")
	case 2:
		vx.Reach("first rsa device drawn")
	case 3:
		vx.Reach("last rsa device drawn")
	}
}

// Vouchers of a test are picked among that test's vouchers.
func H_test_voucher() {
	n := vx.Choose("vouchers", 4)
	vs := []fdoshared.DeviceCredAndVoucher{}
	for i := 0; i < n; i++ {
		v := fdoshared.DeviceCredAndVoucher{}
		v.VoucherDBEntry.Voucher.OVProtVer = fdoshared.ProtVersion(100 + i)
		vs = append(vs, v)
	}
	tv := request.TestVouchers{testcom.FIDO_TEST_VOUCHER_HEADER_BAD_PUBKEY: vs,
		testcom.FIDO_TEST_VOUCHER_HEADER_BAD_PROT_VERSION: {{}}, testcom.NULL_TEST: {{}, {}}}
	var g *fdoshared.DeviceCredAndVoucher
	var err error
	p, _ := vx.Try(func() { g, err = tv.GetVoucher(testcom.FIDO_TEST_VOUCHER_HEADER_BAD_PUBKEY) })
	vx.Assert(!p, "GetVoucher does not crash")
	if n == 0 {
		vx.Assert(err != nil, "GetVoucher of an empty population is refused")
		return
	}
	vx.Assert(err == nil && g != nil, "GetVoucher finds a voucher")
	i := int(g.VoucherDBEntry.Voucher.OVProtVer) - 100
	vx.Assert(i >= 0 && i < n, "GetVoucher yields a voucher of the test")
	_, err = tv.GetVoucher(testcom.FIDO_TEST_VOUCHER_ENTRY_BAD_PREV_HASH)
	vx.Assert(err != nil, "GetVoucher of an unknown test is refused")
}

// Random choices of algorithm identifiers come from the lists and avoid the excluded one.
func H_except() {
	vx.Option("max-decisions", 40)
	sg := fdoshared.SgTypeList[vx.Choose("sg", len(fdoshared.SgTypeList))]
	r := fdoshared.Conf_NewRandomSgTypeExcept(sg)
	vx.Assert(r != sg, "the excluded signature type is never drawn")
	in := false
	for _, x := range fdoshared.SgTypeList {
		in = vx.Or(in, r == x)
	}
	vx.Assert(in, "the drawn signature type is a listed one")
}

func H_except_pk() {
	vx.Option("max-decisions", 40)
	pk := fdoshared.FdoPkType_List[vx.Choose("pk", len(fdoshared.FdoPkType_List))]
	r := fdoshared.Conf_NewRandomFdoPkTypeExcept(pk)
	in := false
	for _, x := range fdoshared.FdoPkType_List {
		in = vx.Or(in, r == x)
	}
	vx.Assert(vx.And(r != pk, in), "a listed key type other than the excluded one is drawn")
}

func H_random_sg() {
	vx.Option("max-decisions", 40)
	r := fdoshared.RandomDeviceSgType()
	in := false
	for _, x := range fdoshared.DeviceSgTypeList {
		in = vx.Or(in, r == x)
	}
	vx.Assert(in, "the drawn device signature type is a listed one")
	vx.Assert(vx.And(r != fdoshared.StEPID10, r != fdoshared.StEPID11), "EPID is never drawn")
}

// Random buffers and strings have the requested size.
func H_sizes() {
	n := vx.Choose("n", vx.Bound("buffer size", 20, 70))
	vx.Assert(len(fdoshared.NewRandomBuffer(n)) == n, "NewRandomBuffer has the requested size")
	vx.Assert(len(fdoshared.NewRandomString(n)) == n, "NewRandomString has the requested size")
}
