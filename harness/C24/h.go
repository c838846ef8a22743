package main

import (
	"slices"
	"strings"

	"github.com/dgraph-io/badger/v4"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	tdbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/listener"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/request"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

func must(err error, label string) { vx.Assert(err == nil, label) }

// fixed content is used for records that only have to be there.
var fixed int

func bs(name string, n int) []byte {
	if fixed == 0 {
		return vx.Bytes(name, n)
	}
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(fixed + i)
	}
	return r
}

func by(name string) byte {
	if fixed == 0 {
		return vx.Byte(name)
	}
	return byte(fixed)
}

func u16(name string) uint16 {
	if fixed == 0 {
		return vx.U16(name)
	}
	return uint16(fixed)
}

func bo(name string) bool {
	if fixed == 0 {
		return vx.Bool(name)
	}
	return true
}

// text is an ASCII string of n free characters.
func text(name string, n int) string {
	b := bs(name, n)
	for _, c := range b {
		vx.Assume(c < 0x80)
	}
	return string(b)
}

func guid(name string) (g fs.FdoGuid) {
	copy(g[:], bs(name, 16))
	return
}

// record is a stored record.
type record struct {
	key  []byte                        // identifies it within its kind
	get  func(key []byte) (any, error) // reads a record of this kind by key
	want any
	same func(got any) bool // field by field
	del  func() error       // nil: this kind is never deleted
}

type kind struct {
	name string
	save func(db *badger.DB, n string) *record
}

func g16(k []byte) (g fs.FdoGuid) {
	copy(g[:], k)
	return
}

var kinds = []kind{
	{"user", func(db *badger.DB, n string) *record {
		s := dbs.NewUserTestDB(db)
		e := dbs.UserTestDBEntry{Email: text(n+" email", vx.Bound("email characters", 2, 3)), Name: text(n+" name", 1), Company: text(n+" company", 1), PasswordHash: bs(n+" hash", 2),
			EmailVerified: bo(n + " verified"), Status: dbs.AccountStatus(text(n+" status", 1))}
		must(s.Save(e), "a user is saved")
		return &record{key: []byte(strings.ToLower(e.Email)), get: func(k []byte) (any, error) { return ret(s.Get(string(k))) }, want: e, same: func(x any) bool {
			g := x.(*dbs.UserTestDBEntry)
			return vx.And(vx.And(vx.And(vx.EqStr(g.Email, e.Email), vx.EqStr(g.Name, e.Name)), vx.And(vx.EqStr(g.Company, e.Company), vx.EqBytes(g.PasswordHash, e.PasswordHash))),
				vx.And(g.EmailVerified == e.EmailVerified, vx.EqStr(string(g.Status), string(e.Status))))
		}}
	}},
	{"verification", func(db *badger.DB, n string) *record {
		s := dbs.NewVerifyDB(db)
		e := dbs.VerifyEntry{Email: text(n+" email", 2), Type: dbs.VerifyType(text(n+" type", 1))}
		k, err := s.SaveEntry(e)
		must(err, "a verification is saved")
		return &record{key: k, get: func(k []byte) (any, error) { return ret(s.GetEntry(k)) }, want: e, del: func() error { return s.DeleteEntry(k) }, same: func(x any) bool {
			g := x.(*dbs.VerifyEntry)
			return vx.And(vx.EqStr(g.Email, e.Email), vx.EqStr(string(g.Type), string(e.Type)))
		}}
	}},
	{"configuration", func(db *badger.DB, n string) *record {
		s := dbs.NewConfigDB(db)
		a, b := guid(n+" seed a"), guid(n+" seed b")
		e := dbs.MainConfig{SeededGuids: fs.FdoSeedIDs{fs.StSECP256R1: {a, b}}}
		must(s.Save(e), "the configuration is saved")
		return &record{get: func(k []byte) (any, error) { return ret(s.Get()) }, want: e, same: func(x any) bool {
			g := x.(*dbs.MainConfig).SeededGuids
			l := g[fs.StSECP256R1]
			return len(g) == 1 && len(l) == 2 && vx.And(vx.EqBytes(l[0][:], a[:]), vx.EqBytes(l[1][:], b[:]))
		}}
	}},
	{"login session", func(db *badger.DB, n string) *record {
		s := dbs.NewSessionDB(db)
		e := dbs.SessionEntry{Email: text(n+" email", 2), LoggedIn: bo(n + " in"), OAuth2State: text(n+" state", 1), OAuth2AdditionalInfo: bo(n + " info"), PasswordResetEmail: text(n+" reset", 1)}
		k, err := s.NewSessionEntry(e)
		must(err, "a login session is saved")
		return &record{key: k, get: func(k []byte) (any, error) { return ret(s.GetSessionEntry(k)) }, want: e, del: func() error { return s.DeleteSessionEntry(k) }, same: func(x any) bool {
			g := x.(*dbs.SessionEntry)
			return vx.And(vx.And(vx.EqStr(g.Email, e.Email), g.LoggedIn == e.LoggedIn), vx.And(vx.EqStr(g.OAuth2State, e.OAuth2State), vx.And(g.OAuth2AdditionalInfo == e.OAuth2AdditionalInfo, vx.EqStr(g.PasswordResetEmail, e.PasswordResetEmail))))
		}}
	}},
	{"rendezvous session", func(db *badger.DB, n string) *record {
		s := rv.NewSessionDB(db)
		e := rv.SessionEntry{Protocol: fs.FdoToProtocol(by(n + " protocol")), Guid: guid(n + " guid"), EASigInfo: fs.SigInfo{SgType: fs.StSECP256R1, Info: bs(n+" info", 1)}}
		copy(e.NonceTO0Sign[:], bs(n+" nonce0", 16))
		copy(e.NonceTO1Proof[:], bs(n+" nonce1", 16))
		k, err := s.NewSessionEntry(e)
		must(err, "a rendezvous session is saved")
		return &record{key: k, get: func(k []byte) (any, error) { return ret(s.GetSessionEntry(k)) }, want: e, same: func(x any) bool {
			g := x.(*rv.SessionEntry)
			return vx.And(vx.And(g.Protocol == e.Protocol, vx.EqBytes(g.Guid[:], e.Guid[:])), vx.And(vx.EqBytes(g.NonceTO0Sign[:], e.NonceTO0Sign[:]), vx.EqBytes(g.NonceTO1Proof[:], e.NonceTO1Proof[:])))
		}}
	}},
	{"onboarding session", func(db *badger.DB, n string) *record {
		s := dodbs.NewSessionDB(db)
		e := dodbs.SessionEntry{Protocol: fs.To2, PrevCMD: fs.FdoCmd(by(n + " last")), Guid: guid(n + " guid"), NumOVEntries: by(n + " entries"), OwnerSIMsSendCounter: u16(n + " counter"),
			SessionKey: fs.SessionKeyInfo{ShSe: bs(n+" key", 2)}, Voucher: some(n).V, OwnerSIMsFinishedSending: bo(n + " finished"), PrivateKeyDER: bs(n+" owner key", 2)}
		k, err := s.NewSessionEntry(e)
		must(err, "an onboarding session is saved")
		return &record{key: k, get: func(k []byte) (any, error) { return ret(s.GetSessionEntry(k)) }, want: e, same: func(x any) bool {
			g := x.(*dodbs.SessionEntry)
			return vx.And(vx.And(g.PrevCMD == e.PrevCMD, vx.EqBytes(g.Guid[:], e.Guid[:])), vx.And(vx.And(g.NumOVEntries == e.NumOVEntries, g.OwnerSIMsSendCounter == e.OwnerSIMsSendCounter),
				vx.And(vx.EqBytes(g.SessionKey.ShSe, e.SessionKey.ShSe), vx.And(g.OwnerSIMsFinishedSending == e.OwnerSIMsFinishedSending, vx.EqBytes(g.PrivateKeyDER, e.PrivateKeyDER)))))
		}}
	}},
	{"voucher", func(db *badger.DB, n string) *record {
		s := dodbs.NewVoucherDB(db)
		v := some(n)
		e := fs.VoucherDBEntry{Voucher: v.V, SgType: v.Sg, PrivateKeyX509: bs(n+" owner key", 2)}
		must(s.Save(e), "a voucher is saved")
		return &record{key: v.H.OVGuid[:], get: func(k []byte) (any, error) { return ret(s.Get(g16(k))) }, want: e, same: func(x any) bool {
			g := x.(*fs.VoucherDBEntry)
			return vx.And(vx.EqBytes(g.Voucher.OVHeaderTag, e.Voucher.OVHeaderTag), vx.And(len(g.Voucher.OVEntryArray) == len(e.Voucher.OVEntryArray), vx.And(g.SgType == e.SgType, vx.EqBytes(g.PrivateKeyX509, e.PrivateKeyX509))))
		}}
	}},
	{"voucher by GUID", func(db *badger.DB, n string) *record {
		s := dodbs.NewVoucherDB(db)
		k := guid(n + " guid")
		e := fs.VoucherDBEntry{Voucher: fs.OwnershipVoucher{OVProtVer: 101, OVHeaderTag: bs(n+" header", 2)}, SgType: fs.StSECP256R1, PrivateKeyX509: bs(n+" owner key", 2)}
		must(s.SaveByGUID(k, e), "a voucher is saved under a GUID")
		return &record{key: k[:], get: func(k []byte) (any, error) { return ret(s.Get(g16(k))) }, want: e, same: func(x any) bool {
			g := x.(*fs.VoucherDBEntry)
			return vx.And(vx.EqBytes(g.Voucher.OVHeaderTag, e.Voucher.OVHeaderTag), vx.EqBytes(g.PrivateKeyX509, e.PrivateKeyX509))
		}}
	}},
	{"redirect", func(db *badger.DB, n string) *record {
		s := rv.NewOwnerSignDB(db)
		k := guid(n + " guid")
		e := fs.OwnerSign22{To0d: bs(n+" to0d", 2), To1d: fs.CoseSignature{Protected: []byte{}, Payload: bs(n+" payload", 2), Signature: bs(n+" signature", 2)}}
		must(s.Save(k, e, 1000), "a redirect is saved")
		return &record{key: k[:], get: func(k []byte) (any, error) { return ret(s.Get(g16(k))) }, want: e, same: func(x any) bool {
			g := x.(*fs.OwnerSign22)
			return vx.And(vx.EqBytes(g.To0d, e.To0d), vx.And(vx.EqBytes(g.To1d.Payload, e.To1d.Payload), vx.EqBytes(g.To1d.Signature, e.To1d.Signature)))
		}}
	}},
	{"virtual device", func(db *badger.DB, n string) *record {
		s := dbs.NewDeviceBaseDB(db)
		e := fs.WawDeviceCredential{DCProtVer: 101, DCGuid: guid(n + " guid"), DCHmacSecret: bs(n+" secret", 2), DCDeviceInfo: text(n+" info", 1), DCPrivateKeyDer: bs(n+" key", 2),
			DCCertificateChain: []fs.X509CertificateBytes{bs(n+" certificate", 1)}, DCSigInfo: fs.SigInfo{SgType: fs.StSECP256R1, Info: []byte{}}}
		must(s.Save(e), "a virtual device is saved")
		return &record{key: e.DCGuid[:], get: func(k []byte) (any, error) { return ret(s.Get(g16(k))) }, want: e, same: func(x any) bool {
			g := x.(*fs.WawDeviceCredential)
			return vx.And(vx.And(vx.EqBytes(g.DCGuid[:], e.DCGuid[:]), vx.EqBytes(g.DCHmacSecret, e.DCHmacSecret)), vx.And(vx.EqStr(g.DCDeviceInfo, e.DCDeviceInfo), vx.EqBytes(g.DCPrivateKeyDer, e.DCPrivateKeyDer)))
		}}
	}},
	{"test target", func(db *badger.DB, n string) *record {
		s := tdbs.NewRequestTestDB(db)
		e := request.NewRequestTestInst("http://"+text(n+" url", 2), fs.To0)
		e.InProgress = bo(n + " running")
		e.FdoSeedIDs = fs.FdoSeedIDs{fs.StSECP256R1: {guid(n + " seed")}}
		e.TestsHistory = []request.RequestTestRun{{Uuid: text(n+" run", 2), Timestamp: int64(by(n + " time")), Tests: request.RequestTestResultMap{"t": {Passed: bo(n + " passed"), Error: text(n+" error", 1), TestID: "t"}}, Protocol: fs.To0}}
		must(s.Save(e), "a test target is saved")
		return &record{key: e.Uuid, get: func(k []byte) (any, error) { return ret(s.Get(k)) }, want: e, same: func(x any) bool {
			g := x.(*request.RequestTestInst)
			if len(g.TestsHistory) != 1 || len(g.TestsHistory[0].Tests) != 1 {
				return false
			}
			a, b := g.TestsHistory[0], e.TestsHistory[0]
			return vx.And(vx.And(vx.EqBytes(g.Uuid, e.Uuid), vx.And(vx.EqStr(g.URL, e.URL), g.InProgress == e.InProgress)), vx.And(vx.And(vx.EqStr(a.Uuid, b.Uuid), a.Timestamp == b.Timestamp), vx.And(a.Tests["t"].Passed == b.Tests["t"].Passed, vx.EqStr(a.Tests["t"].Error, b.Tests["t"].Error))))
		}}
	}},
	{"listener run", func(db *badger.DB, n string) *record {
		s := tdbs.NewListenerTestDB(db)
		e := entry(n)
		must(s.Save(e), "a listener run is saved")
		return &record{key: e.Uuid, get: func(k []byte) (any, error) { return ret(s.Get(k)) }, want: e, del: func() error { return s.Delete(e.Uuid) }, same: func(x any) bool { return sameEntry(x.(*listener.RequestListenerInst), e) }}
	}},
	{"listener run by GUID", func(db *badger.DB, n string) *record {
		s := tdbs.NewListenerTestDB(db)
		e := entry(n)
		must(s.Save(e), "a listener run is saved")
		return &record{key: e.Guid[:], get: func(k []byte) (any, error) { return ret(s.GetEntryByFdoGuid(g16(k))) }, want: e, del: func() error { return s.Delete(e.Uuid) }, same: func(x any) bool { return sameEntry(x.(*listener.RequestListenerInst), e) }}
	}},
}

func entry(n string) listener.RequestListenerInst {
	return listener.RequestListenerInst{Uuid: bs(n+" id", 16), Guid: guid(n + " guid"), Type: fs.Device,
		TestVoucher: fs.VoucherDBEntry{Voucher: fs.OwnershipVoucher{OVProtVer: 101, OVHeaderTag: bs(n+" header", 1)}, SgType: fs.StSECP256R1},
		To1:         listener.RequestListenerRunnerInst{Protocol: fs.To1, LastTestID: testcom.FDOTestID(text(n+" test", 1)), Running: bo(n + " running"), CurrentTestIndex: int(by(n + " index"))}}
}

func sameEntry(g *listener.RequestListenerInst, e listener.RequestListenerInst) bool {
	return vx.And(vx.And(vx.EqBytes(g.Uuid, e.Uuid), vx.EqBytes(g.Guid[:], e.Guid[:])), vx.And(vx.And(vx.EqBytes(g.TestVoucher.Voucher.OVHeaderTag, e.TestVoucher.Voucher.OVHeaderTag),
		vx.EqStr(string(g.To1.LastTestID), string(e.To1.LastTestID))), vx.And(g.To1.Running == e.To1.Running, g.To1.CurrentTestIndex == e.To1.CurrentTestIndex)))
}

// some is a voucher for a free GUID.
func some(n string) *vxf.Voucher {
	g := guid(n + " guid")
	v := &vxf.Voucher{Sg: fs.StSECP256R1}
	v.H = fs.OwnershipVoucherHeader{OVHProtVer: 101, OVGuid: g, OVRvInfo: vxf.SomeRv(), OVDeviceInfo: text(n+" info", 1), OVPublicKey: pub}
	v.V = fs.OwnershipVoucher{OVProtVer: 101, OVHeaderTag: vxf.Marshal(v.H), OVHeaderHMac: fs.HashOrHmac{Type: fs.HASH_HMAC_SHA256, Hash: bs(n+" hmac", 2)}, OVDevCertChain: nil, OVEntryArray: []fs.CoseSignature{}}
	return v
}

var pub = fs.FdoPublicKey{PkType: fs.SECP256R1, PkEnc: fs.X509, PkBody: []byte{1, 2}}

func ret[T any](p *T, err error) (any, error) { return p, err }

// intact is the claim that r reads back as it was saved.
func intact(r *record, label string) {
	got, err := r.get(r.key)
	must(err, label)
	vx.Assert(r.same(got), label)
}

// Every record is read back as saved, under its key only, and is gone when deleted.
func H_roundtrip() {
	k := kinds[vx.Choose("kind", len(kinds))]
	db := vxm.OpenDB()
	r := k.save(db, "x")
	intact(r, "a saved record is read back unchanged")
	got, _ := r.get(r.key)
	if k.name == "listener run" || k.name == "listener run by GUID" {
		vx.Assert(vx.EqBytes(vxf.Marshal(*got.(*listener.RequestListenerInst)), vxf.Marshal(r.want)), "a saved record is read back in full")
	}
	switch g := got.(type) {
	case *dodbs.SessionEntry:
		vx.Assert(vx.EqBytes(vxf.Marshal(*g), vxf.Marshal(r.want)), "a saved record is read back in full")
	case *fs.VoucherDBEntry:
		vx.Assert(vx.EqBytes(vxf.Marshal(*g), vxf.Marshal(r.want)), "a saved record is read back in full")
	case *fs.OwnerSign22:
		vx.Assert(vx.EqBytes(vxf.Marshal(*g), vxf.Marshal(r.want)), "a saved record is read back in full")
	case *fs.WawDeviceCredential:
		vx.Assert(vx.EqBytes(vxf.Marshal(*g), vxf.Marshal(r.want)), "a saved record is read back in full")
	case *request.RequestTestInst:
		vx.Assert(vx.EqBytes(vxf.Marshal(*g), vxf.Marshal(r.want)), "a saved record is read back in full")
	}
	if r.key != nil {
		o := bs("other key", len(r.key))
		if k.name == "user" {
			for _, c := range o {
				vx.Assume(c < 0x80)
			}
			o = []byte(strings.ToLower(string(o)))
		}
		ok := vx.Not(vx.EqBytes(o, r.key))
		vx.Assume(ok)
		_, err := r.get(o)
		vx.Assert(err != nil, "a key that was never saved is not found")
		_, err = r.get(o[:len(o)-1])
		if k.name != "user" && len(r.key) != 16 {
			vx.Assert(err != nil, "a key that was never saved is not found")
		}
	}
	if r.del != nil {
		must(r.del(), "a record is deleted")
		_, err := r.get(r.key)
		vx.Assert(err != nil, "a deleted record is gone")
		vx.Assert(len(vxm.Keys(db)) == 0, "nothing of a deleted record remains")
	}
	vx.Reach(k.name)
}

// A second record of any kind leaves the first alone, whether it is saved before or after it or is deleted.
func H_pairs() {
	a, b := kinds[vx.Choose("first", len(kinds))], kinds[vx.Choose("second", len(kinds))]
	db := vxm.OpenDB()
	x := a.save(db, "x")
	y := b.save(db, "y")
	vx.Assume(separate(a, b, x, y))
	intact(x, "saving a record leaves another record unchanged")
	intact(y, "a record is saved beside another")
	if y.del != nil {
		must(y.del(), "a record is deleted beside another")
		intact(x, "deleting a record leaves another record unchanged")
		_, err := y.get(y.key)
		vx.Assert(err != nil, "a deleted record is gone")
	}
	vx.Reach("checked")
	vx.Expect("checked")
}

func class(n string) string {
	switch n {
	case "voucher by GUID":
		return "voucher"
	case "listener run by GUID":
		return "listener run"
	}
	return n
}

// separate holds when x and y are not the same record.
func separate(a, b kind, x, y *record) bool {
	if class(a.name) != class(b.name) {
		return true
	}
	if x.key == nil {
		return false
	}
	if l, ok := x.want.(listener.RequestListenerInst); ok {
		m := y.want.(listener.RequestListenerInst)
		return vx.And(vx.Not(vx.EqBytes(l.Uuid, m.Uuid)), vx.Not(vx.EqBytes(l.Guid[:], m.Guid[:])))
	}
	return vx.Not(vx.EqBytes(x.key, y.key))
}

// The later of two records saved under one key is the one read.
func H_overwrite() {
	db := vxm.OpenDB()
	switch vx.Choose("kind", 6) {
	case 0:
		s := dbs.NewUserTestDB(db)
		mail := text("email", 2)
		must(s.Save(dbs.UserTestDBEntry{Email: mail, Name: "old"}), "a user is saved")
		n := text("name", 2)
		other := strings.ToUpper(mail)
		must(s.Save(dbs.UserTestDBEntry{Email: other, Name: n}), "a user is saved again")
		u, err := s.Get(mail)
		must(err, "the user is found")
		vx.Assert(vx.EqStr(u.Name, n), "the latest content of a user is read")
		vx.Assert(len(vxm.Keys(db)) == 1, "a user is one whatever the case of the address")
	case 1:
		s := dbs.NewConfigDB(db)
		must(s.Save(dbs.MainConfig{SeededGuids: fs.FdoSeedIDs{fs.StSECP256R1: {guid("old")}}}), "a configuration is saved")
		g := guid("new")
		must(s.Save(dbs.MainConfig{SeededGuids: fs.FdoSeedIDs{fs.StSECP384R1: {g}}}), "a configuration is saved")
		c, err := s.Get()
		must(err, "the configuration is found")
		vx.Assert(len(c.SeededGuids) == 1 && len(c.SeededGuids[fs.StSECP384R1]) == 1 && vx.EqBytes(c.SeededGuids[fs.StSECP384R1][0][:], g[:]), "the latest configuration is read")
	case 2:
		s := dodbs.NewVoucherDB(db)
		v := some("old")
		must(s.Save(fs.VoucherDBEntry{Voucher: v.V}), "a voucher is saved")
		e := fs.VoucherDBEntry{Voucher: fs.OwnershipVoucher{OVProtVer: 101, OVHeaderTag: bs("header", 2)}}
		must(s.SaveByGUID(v.H.OVGuid, e), "a voucher is saved under a GUID")
		g, err := s.Get(v.H.OVGuid)
		must(err, "the voucher is found")
		vx.Assert(vx.EqBytes(g.Voucher.OVHeaderTag, e.Voucher.OVHeaderTag), "the latest voucher is read")
	case 3:
		s := dbs.NewDeviceBaseDB(db)
		c := fs.WawDeviceCredential{DCGuid: guid("guid"), DCDeviceInfo: "old"}
		must(s.Save(c), "a virtual device is saved")
		c.DCDeviceInfo = text("info", 2)
		must(s.Save(c), "a virtual device is saved")
		g, err := s.Get(c.DCGuid)
		must(err, "the virtual device is found")
		vx.Assert(vx.EqStr(g.DCDeviceInfo, c.DCDeviceInfo), "the latest virtual device is read")
	case 4:
		s := tdbs.NewRequestTestDB(db)
		e := request.NewRequestTestInst("old", fs.To0)
		must(s.Save(e), "a test target is saved")
		e.URL = text("url", 2)
		must(s.Update(e.Uuid, e), "a test target is updated")
		g, err := s.Get(e.Uuid)
		must(err, "the test target is found")
		vx.Assert(vx.EqStr(g.URL, e.URL), "the latest test target is read")
		vx.Assert(len(vxm.Keys(db)) == 1, "an update adds no record")
	case 5:
		s := tdbs.NewListenerTestDB(db)
		e := entry("old")
		must(s.Save(e), "a listener run is saved")
		e.To1.LastTestID = testcom.FDOTestID(text("test", 2))
		must(s.Update(&e), "a listener run is updated")
		g, err := s.Get(e.Uuid)
		must(err, "the listener run is found")
		vx.Assert(sameEntry(g, e), "the latest listener run is read")
		g, err = s.GetEntryByFdoGuid(e.Guid)
		must(err, "the listener run is found by GUID")
		vx.Assert(sameEntry(g, e), "the latest listener run is read by GUID")
	}
}

// A list of records names every record of its kind once, whatever else is stored.
func H_lists() {
	db := vxm.OpenDB()
	vx.Option("concrete-rand", 1)
	fixed = 0x31
	for _, i := range []int{0, 1, 2, 3, 4, 5, 8} {
		kinds[i].save(db, "other")
	}
	fixed = 0
	var gs []fs.FdoGuid
	n := vx.Choose("records", vx.Bound("records of the kind", 2, 3)+1)
	for i := 0; i < n; i++ {
		g := guid([]string{"a", "b", "c"}[i])
		for _, x := range gs {
			vx.Assume(vx.Not(vx.EqBytes(x[:], g[:])))
		}
		gs = append(gs, g)
	}
	switch vx.Choose("kind", 5) {
	case 0:
		s := dodbs.NewVoucherDB(db)
		for _, g := range gs {
			must(s.SaveByGUID(g, fs.VoucherDBEntry{Voucher: fs.OwnershipVoucher{OVHeaderTag: []byte{1}}}), "a voucher is saved")
		}
		l, err := s.List()
		must(err, "vouchers are listed")
		vx.Assert(len(l) == n, "the list of vouchers has every voucher once")
		for _, g := range gs {
			in := false
			for _, x := range l {
				in = vx.Or(in, vx.EqBytes(x[:], g[:]))
			}
			vx.Assert(in, "the list of vouchers names each voucher")
		}
	case 1:
		s := dbs.NewDeviceBaseDB(db)
		for i, g := range gs {
			must(s.Save(fs.WawDeviceCredential{DCGuid: g, DCDeviceInfo: string(rune('a' + i))}), "a virtual device is saved")
		}
		for _, f := range []func([]fs.FdoGuid) (*[]fs.WawDeviceCredential, error){s.GetMany, s.GetGuids} {
			l, err := f(gs)
			must(err, "virtual devices are read")
			vx.Assert(len(*l) == n, "each virtual device asked for is read")
			for i := range *l {
				vx.Assert((*l)[i].DCDeviceInfo == string(rune('a'+i)), "virtual devices are read in the order asked for")
			}
			o := guid("absent")
			for _, g := range gs {
				vx.Assume(vx.Not(vx.EqBytes(o[:], g[:])))
			}
			_, err = f(append(append([]fs.FdoGuid{}, gs...), o))
			vx.Assert(err != nil, "an absent record among many is an error")
		}
	case 4: // many records, one of them absent
		vx.Assume(n == 0)
		m := vx.Bound("many records", 12, 60)
		gone := vx.Choose("absent record", m+1) // m: none
		rs, ls, ds := tdbs.NewRequestTestDB(db), tdbs.NewListenerTestDB(db), dbs.NewDeviceBaseDB(db)
		var ids [][]byte
		var gs []fs.FdoGuid
		vs := dodbs.NewVoucherDB(db)
		for i := 0; i < m; i++ {
			g := fs.FdoGuid{byte(i), 1}
			must(vs.SaveByGUID(g, fs.VoucherDBEntry{Voucher: fs.OwnershipVoucher{OVHeaderTag: []byte{1}}}), "a voucher is saved")
			gs, ids = append(gs, g), append(ids, append([]byte{}, g[:]...))
			if i == gone {
				continue
			}
			must(rs.Save(request.RequestTestInst{Uuid: g[:], URL: string(rune('a' + i))}), "a test target is saved")
			must(ls.Save(listener.RequestListenerInst{Uuid: g[:], Guid: g, To0: listener.RequestListenerRunnerInst{LastTestID: testcom.FDOTestID(rune('a' + i))}}), "a listener run is saved")
			must(ds.Save(fs.WawDeviceCredential{DCGuid: g, DCDeviceInfo: string(rune('a' + i))}), "a virtual device is saved")
		}
		all, err := vs.List()
		must(err, "vouchers are listed")
		vx.Assert(len(all) == m, "the list of vouchers has every voucher once")
		for _, g := range gs {
			vx.Assert(slices.Contains(all, g), "the list of vouchers names each voucher")
		}
		r, err1 := rs.GetMany(ids)
		l, err2 := ls.GetMany(ids)
		d, err3 := ds.GetMany(gs)
		if gone < m {
			vx.Assert(err1 != nil && err2 != nil && err3 != nil, "an absent record among many is an error")
			return
		}
		vx.Assert(err1 == nil && err2 == nil && err3 == nil, "many records are read")
		vx.Assert(len(*r) == m && len(*l) == m && len(*d) == m, "each record asked for is read")
		for i := 0; i < m; i++ {
			k := string(rune('a' + i))
			vx.Assert((*r)[i].URL == k && (*l)[i].To0.LastTestID == testcom.FDOTestID(k) && (*d)[i].DCDeviceInfo == k, "records are read in the order asked for")
		}
	case 2:
		s := tdbs.NewRequestTestDB(db)
		var ids [][]byte
		for i := range gs {
			must(s.Save(request.RequestTestInst{Uuid: gs[i][:], URL: string(rune('a' + i))}), "a test target is saved")
			ids = append(ids, gs[i][:])
		}
		l, err := s.GetMany(ids)
		must(err, "test targets are read")
		vx.Assert(len(*l) == n, "each test target asked for is read")
		for i := range *l {
			vx.Assert((*l)[i].URL == string(rune('a'+i)), "test targets are read in the order asked for")
		}
	case 3:
		s := tdbs.NewListenerTestDB(db)
		var ids [][]byte
		for i := range gs {
			must(s.Save(listener.RequestListenerInst{Uuid: gs[i][:], Guid: gs[i], To0: listener.RequestListenerRunnerInst{LastTestID: testcom.FDOTestID(rune('a' + i))}}), "a listener run is saved")
			ids = append(ids, gs[i][:])
		}
		l, err := s.GetMany(ids)
		must(err, "listener runs are read")
		vx.Assert(len(*l) == n, "each listener run asked for is read")
		for i := range *l {
			vx.Assert((*l)[i].To0.LastTestID == testcom.FDOTestID(rune('a'+i)), "listener runs are read in the order asked for")
		}
	}
}

// Resetting the users or the listener runs deletes all of them and nothing else.
func H_reset() {
	vx.Option("concrete-rand", 1)
	db := vxm.OpenDB()
	users := vx.Choose("users", vx.Bound("records of the kind", 2, 3)+1)
	runs := vx.Choose("runs", vx.Bound("records of the kind", 2, 3)+1)
	fixed = 0x31
	for _, k := range kinds {
		if k.name != "user" && class(k.name) != "listener run" {
			k.save(db, "other")
		}
	}
	fixed = 0
	for i := 0; i < users; i++ {
		must(dbs.NewUserTestDB(db).Save(dbs.UserTestDBEntry{Email: string(rune('a'+i)) + text("email", 1)}), "a user is saved")
	}
	for i := 0; i < runs; i++ {
		fixed = 0x41 + i
		e := entry("run")
		fixed = 0
		e.Uuid[15], e.Guid[15] = vx.Byte("id"), vx.Byte("guid")
		must(tdbs.NewListenerTestDB(db).Save(e), "a listener run is saved")
	}
	all := vxs.Snap(db, false)
	if vx.Choose("reset", 2) == 0 {
		var err error
		crashed, _ := vx.Try(func() { err = dbs.NewUserTestDB(db).ResetUsers() })
		vx.Assert(!crashed && err == nil, "users are reset")
		after := vxs.Snap(db, false)
		vx.Assert(len(after) == len(all)-users, "a reset of the users deletes every user and nothing else")
		vx.Assert(len(vxs.Changed(all, after)) == 0, "a reset of the users leaves the other records unchanged")
		for _, e := range after {
			vx.Assert(!strings.HasPrefix(e.Key, "usere-"), "no user is left after a reset")
		}
	} else {
		var err error
		crashed, _ := vx.Try(func() { err = tdbs.NewListenerTestDB(db).ResetDB() })
		vx.Assert(!crashed && err == nil, "listener runs are reset")
		after := vxs.Snap(db, false)
		vx.Assert(len(after) == len(all)-2*runs, "a reset of the listener runs deletes every run and nothing else")
		vx.Assert(len(vxs.Changed(all, after)) == 0, "a reset of the listener runs leaves the other records unchanged")
		for _, e := range after {
			vx.Assert(!strings.HasPrefix(e.Key, "lstdb-"), "no listener run is left after a reset")
		}
	}
}

// A user's test instances come back in full and in order.
func H_user_tests() {
	s := dbs.NewUserTestDB(vxm.OpenDB())
	u := dbs.UserTestDBEntry{Email: "a@b", Name: "n"}
	n := vx.Bound("instances of each kind", 2, 3)
	for i := vx.Choose("rendezvous", n+1); i > 0; i-- {
		u.RVTestInsts = append(u.RVTestInsts, dbs.NewRVTestInst(text("url", 1), bs("to0", 2), bs("to1", 2)))
	}
	for i := vx.Choose("onboarding", n+1); i > 0; i-- {
		u.DOTestInsts = append(u.DOTestInsts, dbs.NewDOTestInst(text("url", 1), bs("to2", 2)))
		u.DOTestInsts[len(u.DOTestInsts)-1].ListenerTo0 = bs("listener", 2)
	}
	for i := vx.Choose("device", n+1); i > 0; i-- {
		u.DeviceTestInsts = append(u.DeviceTestInsts, dbs.NewDeviceTestInst(text("name", 1), bs("listener", 2), guid("guid")))
	}
	must(s.Save(u), "a user is saved")
	g, err := s.Get("A@b")
	must(err, "a user is found whatever the case of the address")
	vx.Assert(len(g.RVTestInsts) == len(u.RVTestInsts) && len(g.DOTestInsts) == len(u.DOTestInsts) && len(g.DeviceTestInsts) == len(u.DeviceTestInsts), "a user keeps every test instance")
	for i, x := range u.RVTestInsts {
		y := g.RVTestInsts[i]
		vx.Assert(vx.And(vx.And(vx.EqBytes(x.Uuid, y.Uuid), vx.EqStr(x.Url, y.Url)), vx.And(vx.EqBytes(x.To0, y.To0), vx.EqBytes(x.To1, y.To1))), "a user's rendezvous test is kept")
	}
	for i, x := range u.DOTestInsts {
		y := g.DOTestInsts[i]
		vx.Assert(vx.And(vx.And(vx.EqBytes(x.Uuid, y.Uuid), vx.EqStr(x.Url, y.Url)), vx.And(vx.EqBytes(x.To2, y.To2), vx.EqBytes(x.ListenerTo0, y.ListenerTo0))), "a user's onboarding test is kept")
	}
	for i, x := range u.DeviceTestInsts {
		y := g.DeviceTestInsts[i]
		vx.Assert(vx.And(vx.EqStr(x.Name, y.Name), vx.And(vx.EqBytes(x.ListenerUuid, y.ListenerUuid), vx.EqBytes(x.DeviceGuid[:], y.DeviceGuid[:]))), "a user's device test is kept")
	}
}
