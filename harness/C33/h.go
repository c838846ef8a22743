// Package C33: the commands that manage devices, vouchers and stores.
package main

import (
	"encoding/pem"
	"net/http"
	"os"
	"strconv"

	"github.com/dgraph-io/badger/v4"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/device"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	rvpkg "github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/fdomain"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

const place = "./badger.local.db"

// with opens the commands' database for f.
func with(f func(db *badger.DB)) {
	db := vxm.OpenDir(place)
	f(db)
	db.Close()
}

// run runs a command and reports whether it failed.
func run(args ...string) bool {
	os.Args = append([]string{"fdo"}, args...)
	failed, _ := vx.Try(fdomain.Main)
	return failed
}

func guid(b byte) (g fs.FdoGuid) {
	g[0], g[15] = 0xf1, b
	return
}

// file is a voucher with its owner key as text.
func file(v *vxf.Voucher) []byte {
	b, err := device.MarshalVoucherAndPrivateKey(v.DBEntry())
	if err != nil {
		panic(err)
	}
	return b
}

// stored checks that exactly the given vouchers are stored.
func stored(db *badger.DB, want []*vxf.Voucher, prefix string) {
	s := dodbs.NewVoucherDB(db)
	l, err := s.List()
	vx.Assert(err == nil && len(l) == len(want), prefix+" the vouchers stored are those of the folder")
	for _, v := range want {
		e, err := s.Get(v.H.OVGuid)
		vx.Assert(err == nil && e != nil, prefix+" each voucher is stored under its GUID")
		if err != nil {
			continue
		}
		vx.Assert(vx.EqBytes(vxf.Marshal(e.Voucher), vxf.Marshal(v.V)), prefix+" a voucher is stored as it is")
		vx.Assert(vx.EqBytes(e.PrivateKeyX509, v.DBEntry().PrivateKeyX509), prefix+" a voucher is stored with its key")
	}
}

func vouchers(n int) []*vxf.Voucher {
	var l []*vxf.Voucher
	sg := vx.Choose("owner key", 4)
	for i := 0; i < n; i++ {
		l = append(l, vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: vxf.SgTypes[(sg+i)%4], N: 1 + i%2, Guid: guid(byte(i + 1))}))
	}
	return l
}

// H_load: every voucher of a folder is stored, and a file that is not a voucher with its key is refused.
func H_load() {
	vx.Option("concrete-rand", 2)
	n := 1 + vx.Choose("vouchers", vx.Bound("vouchers", 4, 6))
	vs := vouchers(n)
	defer vxm.Dir("v")()
	old := vx.Bool("stored before")
	if old { // an earlier version of the first voucher
		o := *vs[0]
		o.V.OVEntryArray = nil
		with(func(db *badger.DB) {
			if err := dodbs.NewVoucherDB(db).Save(o.DBEntry()); err != nil {
				panic(err)
			}
			vxm.Put(db, "usere-a@b", []byte("user"))
		})
	}
	for i, v := range vs {
		vxm.PutFile("v/"+strconv.Itoa(i)+".voucher.pem", file(v))
	}
	vxm.PutFile("v/readme.txt", []byte("vouchers"))
	bad := vx.Choose("bad file", 6)
	at := vx.Choose("place", 2)
	name := []string{"v/!.pem", "v/z.pem"}[at]
	if bad == 0 {
		vx.Assume(at == 0)
	}
	o := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 2, Guid: guid(99)})
	switch bad {
	case 1:
		vxm.PutFile(name, nil)
	case 2: // without its key
		vxm.PutFile(name, pem.EncodeToMemory(&pem.Block{Type: fs.OWNERSHIP_VOUCHER_PEM_TYPE, Bytes: vxf.Marshal(o.V)}))
	case 3: // a forged entry
		e := o.V.OVEntryArray[1]
		e.Signature = append([]byte{}, e.Signature...)
		e.Signature[vx.Choose("signature byte", 2)*(len(e.Signature)-1)] ^= byte(vx.Int("flip", 1, 255))
		o.V.OVEntryArray = []fs.CoseSignature{o.V.OVEntryArray[0], e}
		vxm.PutFile(name, file(o))
	case 4: // a device credential
		vxm.PutFile(name, pem.EncodeToMemory(&pem.Block{Type: fs.CREDENTIAL_PEM_TYPE, Bytes: vxf.Marshal(vxs.Cred(o))}))
	case 5: // not text
		vxm.PutFile(name, vx.Bytes("content", 3))
	}
	failed := run("iop", "do_load_vouchers", "v")
	vx.Assert(failed == (bad != 0), "loading fails exactly when a file is not a voucher with its key")
	with(func(db *badger.DB) {
		if bad == 0 {
			stored(db, vs, "a loaded folder:")
		}
		_, err := dodbs.NewVoucherDB(db).Get(guid(99))
		vx.Assert(err != nil, "a bad voucher is not stored")
		if old {
			vx.Assert(string(vxm.Raw(db, "usere-a@b")) == "user", "loading changes nothing else")
		}
		if bad == 0 {
			s := vxs.DOOn(db)
			d := s.Hello60(vs[n-1], fs.KEX_ECDH256, fs.CIPHER_A128GCM)
			d.Entries()
			vx.Reach("served")
		}
	})
}

// H_push: every stored voucher is registered with the rendezvous server, until it refuses one.
func H_push() {
	vx.Option("concrete-rand", 2)
	n := vx.Choose("vouchers", vx.Bound("vouchers", 4, 6))
	vs := vouchers(n)
	defer vxm.Dir()()
	with(func(db *badger.DB) {
		for _, v := range vs {
			if err := dodbs.NewVoucherDB(db).Save(v.DBEntry()); err != nil {
				panic(err)
			}
		}
	})
	rv := vxs.NewRV()
	refuse := -1
	if n > 0 && vx.Bool("refused") {
		refuse = vx.Choose("refused message", 2*n)
	}
	sent := 0
	vxs.Net(func(m vxs.Sent) (*http.Response, error) {
		i := sent
		sent++
		vx.Assert(int(m.Cmd) == 20+2*(i%2), "each voucher is registered with a hello and a registration")
		vx.Assert(i <= 2*n, "each voucher is registered once")
		if i == refuse {
			if vx.Bool("network") {
				return nil, vxs.ErrNet
			}
			return vxs.Reply(500, "", vxf.Marshal(fs.FdoError{EMErrorCode: 500, EMPrevMsgID: m.Cmd, EMErrorStr: "no", EMErrorTs: 1})), nil
		}
		rec := rv.Answer(m)
		vx.Assert(rec.Code == 200, "the rendezvous server accepts the registrations")
		return vxs.Reply(rec.Code, rec.H.Get("Authorization"), rec.Body), nil
	})
	failed := run("iop", "rv_push_vouchers", "http://rv")
	vx.Assert(!failed, "pushing does not crash")
	o := rvpkg.NewOwnerSignDB(rv.DB)
	found := 0
	for _, v := range vs {
		e, err := o.Get(v.H.OVGuid)
		if err != nil {
			continue
		}
		found++
		vx.Assert(fs.VerifyCoseSignature(e.To1d, v.OwnerPub[len(v.OwnerPub)-1]) == nil, "a voucher is registered by its owner")
	}
	if refuse < 0 {
		vx.Assert(found == n && sent == 2*n, "every stored voucher is registered")
	} else {
		vx.Assert(found == refuse/2, "every voucher before the refused one is registered")
	}
	with(func(db *badger.DB) { stored(db, vs, "after pushing:") })
}

// H_journey: a generated device onboards with the service its voucher was loaded into, over the rendezvous server its
// voucher was pushed to.
func H_journey() {
	vx.Option("concrete-rand", 1)
	vx.Option("free-ints", 2) // the keys of the device and the owner
	vx.Option("split-ints", 1)
	defer vxm.Dir("_dis", "_vouchers")()
	vx.Assert(!run("iop", "generate"), "a device is generated")
	ds, err := os.ReadDir("_dis")
	vx.Assert(err == nil && len(ds) == 1, "a generated device has one credential")
	vx.Assert(!run("iop", "do_load_vouchers", "_vouchers"), "a generated voucher is loaded")
	rv := vxs.NewRV()
	var do *vxs.DO
	last := fs.FdoCmd(0)
	vxs.Net(func(m vxs.Sent) (*http.Response, error) {
		last = m.Cmd
		post := rv.Answer
		if m.Cmd >= 60 {
			post = do.Answer
		}
		rec := post(m)
		vx.Assert(rec.Code == 200, "the servers accept a generated device and its voucher")
		return vxs.Reply(rec.Code, rec.H.Get("Authorization"), rec.Body), nil
	})
	vx.Assert(!run("iop", "rv_push_vouchers", "http://rv") && last == 22, "a generated voucher is registered")
	cred := "_dis/" + ds[0].Name()
	vx.Assert(!run("iop", "to1", "http://rv", cred) && last == 32, "a generated device gets its redirect")
	with(func(db *badger.DB) {
		do = vxs.DOOn(db)
		vx.Assert(!run("iop", "to2", "http://do", cred) && last == 70, "a generated device onboards")
	})
}

// H_reset: a reset removes the records of its kind, all of them and no others.
func H_reset() {
	defer vxm.Dir()()
	kinds := []string{"usere-", "lstdb-", "lstdb-guid-map-", "session-", "voucher-", "rvte-", "to1osstorage-", "verifydb-", "config-main", "devbasecreds-"}
	n := 1 + vx.Choose("records", vx.Bound("records of a kind", 3, 5))
	want := map[string]bool{}
	users := vx.Bool("users")
	var keys []string
	with(func(db *badger.DB) {
		for i, k := range kinds {
			for j := 0; j < n; j++ {
				key := k + strconv.Itoa(j)
				vxm.Put(db, key, []byte("x"))
				gone := users && i == 0 || !users && (i == 1 || i == 2)
				keys = append(keys, key)
				want[key] = !gone
			}
		}
	})
	kind := "listenerdb"
	if users {
		kind = "users"
	}
	vx.Assert(!run("reset", kind), "a reset succeeds")
	with(func(db *badger.DB) {
		have := map[string]bool{}
		for _, k := range vxm.Keys(db) {
			have[k] = true
		}
		for _, k := range keys {
			vx.Assert(have[k] == want[k], "a reset removes the records of its kind and no others")
		}
	})
}
