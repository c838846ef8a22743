package main

import (
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/x509"
	"strings"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	tc "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
)

var devSg = []fs.SgType{fs.StSECP256R1, fs.StSECP384R1}

func pub(k any) any {
	switch x := k.(type) {
	case *ecdsa.PrivateKey:
		return &x.PublicKey
	case *rsa.PrivateKey:
		return &x.PublicKey
	}
	panic("h: key")
}

func samePub(a, b any) bool {
	switch x := a.(type) {
	case *ecdsa.PublicKey:
		y, ok := b.(*ecdsa.PublicKey)
		return ok && x.Equal(y)
	case *rsa.PublicKey:
		y, ok := b.(*rsa.PublicKey)
		return ok && x.Equal(y)
	}
	return false
}

// owned: the key is the private part of the public key.
func owned(der []byte, p fs.FdoPublicKey) bool {
	k, err := fs.ExtractPrivateKey(der)
	if err != nil {
		return false
	}
	b, ok := p.PkBody.([]byte)
	if !ok || p.PkEnc != fs.X509 {
		return false
	}
	q, err := x509.ParsePKIXPublicKey(b)
	return err == nil && samePub(pub(k), q)
}

// holds checks what a credential and voucher without a fault are.
func holds(r *fs.DeviceCredAndVoucher, c fs.WawDeviceCredential, sg fs.SgType, rv fs.RendezvousInfo) {
	v, d := r.VoucherDBEntry.Voucher, r.WawDeviceCredential
	vx.Assert(v.Validate() == nil, "a generated voucher passes validation")
	h, err := v.GetOVHeader()
	vx.Assert(err == nil, "a generated header is readable")
	vx.Assert(h.OVGuid == d.DCGuid && d.DCGuid == c.DCGuid, "the voucher is for the device's GUID")
	vx.Assert(vx.EqBytes(vxf.Marshal(h.OVRvInfo), vxf.Marshal(rv)), "the voucher has the rendezvous information asked for")
	vx.Assert(h.OVDeviceInfo == d.DCDeviceInfo && d.DCDeviceInfo == c.DCDeviceInfo, "the voucher has the device's information")
	vx.Assert(vx.EqBytes(d.DCPrivateKeyDer, c.DCPrivateKeyDer), "the device keeps its key")
	kh, err := fs.GenerateFdoHash(vxf.Marshal(h.OVPublicKey), d.DCHashAlg)
	vx.Assert(err == nil && d.DCPubKeyHash.Type == kh.Type && vx.EqBytes(d.DCPubKeyHash.Hash, kh.Hash), "the device knows the manufacturer key of the voucher")
	vx.Assert(fs.VerifyHMac(v.OVHeaderTag, v.OVHeaderHMac, d.DCHmacSecret) == nil, "the header HMAC verifies under the device's secret")
	vx.Assert(v.OVHeaderHMac.Type == d.DCHmacAlg, "the header HMAC is of the device's algorithm")
	want := fs.HashType(fs.HASH_SHA256)
	mac := fs.HashType(fs.HASH_HMAC_SHA256)
	if c.DCSigInfo.SgType == fs.StSECP384R1 || sg == fs.StSECP384R1 {
		want, mac = fs.HASH_SHA384, fs.HASH_HMAC_SHA384
	}
	vx.Assert(d.DCHashAlg == want && d.DCHmacAlg == mac, "the algorithms are those of the keys")
	vx.Assert(v.OVDevCertChain != nil && len(*v.OVDevCertChain) == len(c.DCCertificateChain), "the voucher has the device's chain")
	chain := *v.OVDevCertChain
	vx.Assert(vx.EqBytes(vxf.Marshal(chain), vxf.Marshal(d.DCCertificateChain)), "the chains are the same")
	crt, err := x509.ParseCertificate(chain[0])
	vx.Assert(err == nil, "the device certificate is readable")
	k, err := fs.ExtractPrivateKey(d.DCPrivateKeyDer)
	vx.Assert(err == nil && samePub(pub(k), crt.PublicKey), "the chain starts with the device's key")
	vx.Assert(len(v.OVEntryArray) > 0, "the voucher has an owner")
	p, err := v.GetFinalOwnerPublicKey()
	vx.Assert(err == nil && p.PkType == fs.SgTypeToFdoPkType[sg], "the owner key is of the type asked for")
	vx.Assert(h.OVPublicKey.PkType == fs.SgTypeToFdoPkType[sg], "the manufacturer key is of the type asked for")
	vx.Assert(owned(r.VoucherDBEntry.PrivateKeyX509, p), "the last entry names the owner key delivered with the voucher")
}

func cred(sg fs.SgType) fs.WawDeviceCredential {
	c, err := fs.NewWawDeviceCredential(sg)
	if err != nil {
		panic(err)
	}
	return *c
}

// kinds are the key types of device and owner.
func kinds() (d, o fs.SgType) {
	if vx.Bound("all pairs of key types", 0, 1) == 1 {
		return devSg[vx.Choose("device key", 2)], vxf.SgTypes[vx.Choose("owner key", 4)]
	}
	p := [][2]fs.SgType{{fs.StSECP256R1, fs.StSECP256R1}, {fs.StSECP384R1, fs.StSECP256R1}, {fs.StSECP256R1, fs.StSECP384R1}, {fs.StSECP384R1, fs.StRSA2048}, {fs.StSECP256R1, fs.StRSA3072}}[vx.Choose("keys", 5)]
	return p[0], p[1]
}

func rvInfo() fs.RendezvousInfo {
	r, err := fs.UrlsToRendezvousInfo([][]string{{"https://localhost:8043"}, {"http://a.example", "https://10.1.2.3:7"}}[vx.Bound("rendezvous", 0, 1)*vx.Choose("rendezvous", 2)])
	if err != nil {
		panic(err)
	}
	return r
}

type gen struct {
	sg    fs.SgType
	keys  bool
	priv  any
	pub   *fs.FdoPublicKey
	rv    fs.RendezvousInfo
	owner []byte
}

func newGen(sg fs.SgType) *gen { return newGenOf(sg, vx.Bool("own keys")) }

func newGenOf(sg fs.SgType, keys bool) *gen {
	g := &gen{sg: sg, keys: keys, rv: rvInfo()}
	if g.keys {
		k, p := vxf.Key(g.sg)
		g.priv, g.pub = k, &p
	}
	return g
}

func (g *gen) make(c fs.WawDeviceCredential, t tc.FDOTestID) (*fs.DeviceCredAndVoucher, error) {
	if g.keys {
		return device.NewVirtualDeviceAndVoucherWithKeys(c, g.priv, g.pub, g.sg, g.rv, t)
	}
	return device.NewVirtualDeviceAndVoucher(c, g.sg, g.rv, t)
}

func (g *gen) check(r *fs.DeviceCredAndVoucher, c fs.WawDeviceCredential) {
	holds(r, c, g.sg, g.rv)
	if g.keys {
		p, err := r.VoucherDBEntry.Voucher.GetFinalOwnerPublicKey()
		vx.Assert(err == nil && vx.EqBytes(vxf.Marshal(p), vxf.Marshal(*g.pub)), "the voucher ends with the owner key asked for")
		vx.Assert(owned(r.VoucherDBEntry.PrivateKeyX509, *g.pub), "the key delivered is the owner key asked for")
	}
}

// other are the tests that ask for no voucher fault.
func other() []tc.FDOTestID {
	l := []tc.FDOTestID{tc.NULL_TEST, ""}
	for _, x := range [][]tc.FDOTestID{tc.FIDO_TEST_LIST_RVT_20, tc.FIDO_TEST_LIST_RVT_22} {
		l = append(l, x...)
	}
	return l
}

// H_good: a voucher without a fault is right, for every draw of its length.
func H_good() {
	vx.Option("concrete-rand", 1)
	ds, os := kinds()
	c := cred(ds)
	g := newGen(os)
	t := tc.NULL_TEST
	if vx.Bool("another test") {
		l := other()
		t = l[vx.Choose("test", len(l))]
		vx.Option("concrete-rand", 2)
	}
	before := vxf.Marshal(c)
	r, err := g.make(c, t)
	vx.Assert(err == nil && r != nil, "a voucher is generated")
	vx.Assert(vx.EqBytes(before, vxf.Marshal(c)), "the credential it is generated from stays as it was")
	g.check(r, c)
	vx.Reach("generated")
}

// H_fault: a voucher with a fault does not pass validation, for every draw of where the fault is.
func H_fault() {
	vx.Option("concrete-rand", 1)
	i := vx.Choose("fault", len(tc.FIDO_TEST_LIST_VOUCHER))
	t := tc.FIDO_TEST_LIST_VOUCHER[i]
	ds, os := fs.StSECP256R1, fs.StSECP256R1
	keys := vx.Bool("own keys")
	if vx.Bound("all kinds of keys", 0, 1) == 1 {
		ds, os = kinds()
	} else if keys == (i%2 == 0) {
		ds, os = fs.StSECP384R1, fs.StRSA2048
	}
	c := cred(ds)
	g := newGenOf(os, keys)
	switch t {
	case tc.FIDO_TEST_VOUCHER_BAD_HEADER_BYTES, tc.FIDO_TEST_VOUCHER_BAD_CHAIN, tc.FIDO_TEST_VOUCHER_ENTRY_BAD_SIGNATURE:
		vx.Option("free-ints", vx.Bound("free draws for garbled bytes", 2, 3)) // the length of what is garbled is drawn
	case tc.FIDO_TEST_VOUCHER_HEADER_BAD_PUBKEY, tc.FIDO_TEST_VOUCHER_ENTRY_BAD_PUBKEY:
		vx.Option("free-ints", vx.Bound("free draws for keys", 3, 6))
	default:
		vx.Option("free-ints", vx.Bound("free draws", 4, 9))
	}
	before := vxf.Marshal(c)
	r, err := g.make(c, t)
	vx.Assert(err == nil && r != nil, "a voucher is generated")
	vx.Assert(r.VoucherDBEntry.Voucher.Validate() != nil, "a voucher with a fault does not pass validation: "+string(t))
	vx.Assert(vx.EqBytes(before, vxf.Marshal(c)), "the credential it is generated from stays as it was")
	vx.Assert(vx.EqBytes(vxf.Marshal(r.WawDeviceCredential.DCCertificateChain), vxf.Marshal(c.DCCertificateChain)), "the device keeps its chain")
	vx.Reach("a faulty one: " + string(t))
	// the next one from the same credential is right
	vx.Option("concrete-rand", 2)
	r, err = g.make(c, tc.NULL_TEST)
	vx.Assert(err == nil && r != nil, "a voucher is generated after a faulty one")
	g.check(r, c)
}

// H_device: a device has the key, chain and type it should.
func H_device() {
	vx.Option("concrete-rand", 1)
	sg := fs.SgType(vx.Int("type", -300, 200))
	c, err := fs.NewWawDeviceCredential(sg)
	if sg != fs.StSECP256R1 && sg != fs.StSECP384R1 {
		vx.Assert(err != nil, "a device of another key type is refused")
		return
	}
	vx.Assert(err == nil, "a device is generated")
	k, err := fs.ExtractPrivateKey(c.DCPrivateKeyDer)
	vx.Assert(err == nil, "the device key is readable")
	vx.Assert(len(c.DCCertificateChain) == 3, "the device has a chain")
	crt, err := x509.ParseCertificate(c.DCCertificateChain[0])
	vx.Assert(err == nil && samePub(pub(k), crt.PublicKey), "the chain starts with the device's key")
	vx.Assert(c.DCSigInfo.SgType == sg, "the device signs with the type asked for")
	h, err := fs.ComputeOVDevCertChainHash(c.DCCertificateChain, c.DCCertificateChainHash.Type)
	vx.Assert(err == nil && vx.EqBytes(h.Hash, c.DCCertificateChainHash.Hash), "the chain hash is the chain's")
	_, err = fs.VerifyCertificateChain(c.DCCertificateChain)
	vx.Assert(err == nil, "the chain verifies")
	vx.Reach("device")
}

// H_type: an owner key type that is not supported is refused.
func H_type() {
	vx.Option("concrete-rand", 2)
	c := cred(devSg[vx.Choose("device key", 2)])
	sg := fs.SgType(vx.Int("type", -300, 200))
	for _, x := range vxf.SgTypes {
		vx.Assume(sg != x)
	}
	p, msg := vx.Try(func() {
		_, err := device.NewVirtualDeviceAndVoucher(c, sg, vxf.SomeRv(), tc.NULL_TEST)
		vx.Assert(err != nil, "an owner key type that is not supported is refused")
	})
	vx.Assert(!p || !strings.HasPrefix(msg, "runtime error"), "the generator does not crash: "+msg)
}

// H_base: a voucher for a stored device is right, and the stored device stays.
func H_base() {
	vx.Option("concrete-rand", 1)
	ds, os := kinds()
	c := cred(ds)
	db := vxm.OpenDB()
	base := dbs.NewDeviceBaseDB(db)
	if err := base.Save(c); err != nil {
		panic(err)
	}
	before := vxm.Dump(db)
	vx.Option("free-ints", vx.Bound("free draws", 2, 3))
	g := newGen(os)
	rv, err := fs.UrlsToRendezvousInfo([]string{"https://localhost:8043"})
	if err != nil {
		panic(err)
	}
	g.rv = rv
	var r *fs.DeviceCredAndVoucher
	if g.keys {
		r, err = base.GetVANDVWithWithKeys(c.DCGuid, g.priv, g.pub, g.sg, tc.NULL_TEST)
	} else {
		r, err = base.GetVANDV(c.DCGuid, tc.NULL_TEST)
	}
	vx.Assert(err == nil && r != nil, "a voucher is generated for a stored device")
	if !g.keys {
		h, err := r.VoucherDBEntry.Voucher.GetOVHeader()
		vx.Assert(err == nil, "a generated header is readable")
		for sg, t := range fs.SgTypeToFdoPkType {
			if t == h.OVPublicKey.PkType && sg != fs.StEPID10 && sg != fs.StEPID11 {
				g.sg = sg
			}
		}
	}
	g.check(r, c)
	after := vxm.Dump(db)
	vx.Assert(len(after) == len(before) && vx.EqStr(after[0].Val, before[0].Val), "the stored device stays")
	none := c.DCGuid
	none[vx.Bound("step", 15, 1)*vx.Choose("position", vx.Bound("positions", 2, 16))] ^= 1 + vx.Byte("change")&0x7f
	_, err = base.GetVANDV(none, tc.NULL_TEST)
	vx.Assert(err != nil, "no voucher is generated for a device that is not stored")
}
