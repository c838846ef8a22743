package main

import (
	"strings"
	"time"

	"github.com/dgraph-io/badger/v4"
	dodbs "github.com/fido-alliance/iot-fdo-conformance-tools/core/do/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/dbs"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

func all(l ...bool) bool {
	r := true
	for _, x := range l {
		r = vx.And(r, x)
	}
	return r
}

func must(err error, label string) { vx.Assert(err == nil, label) }

const (
	protocol   = 10 * time.Minute
	management = 7 * 24 * time.Hour
	slack      = 5 * time.Second
)

// lifetime is the claim that a session expires in time.
func lifetime(db *badger.DB, token string, max time.Duration) {
	ttl, expires, found := vxm.TTL(db, []byte("session-"+strings.TrimPrefix(token, "Bearer ")))
	vx.Assert(found, "a session is stored under its token")
	vx.Assert(expires, "a session expires")
	vx.Assert(ttl > 0 && ttl <= max+slack, "a session's lifetime is bounded by that of its kind")
}

// only is the claim that nothing but the session of the token changed.
func only(db *badger.DB, before []vxm.KV, token string) {
	own := "session-" + strings.TrimPrefix(token, "Bearer ")
	n := 0
	after := vxm.Dump(db)
	for _, a := range before {
		if a.Key == own {
			n++
			continue
		}
		kept := false
		for _, b := range after {
			if a.Key == b.Key {
				d := a.TTL - b.TTL
				kept = vx.And(vx.EqStr(a.Val, b.Val), a.Expires == b.Expires && d < slack && d > -slack)
			}
		}
		vx.Assert(kept, "no other session changes")
		n++
	}
	for _, b := range after {
		if b.Key == own {
			n--
			continue
		}
		n--
	}
	vx.Assert(n == 0, "no other session appears")
}

func nonce(name string) (n fs.FdoNonce) {
	copy(n[:], vx.Bytes(name, 16))
	return
}

// store is one kind of session.
type store struct {
	max    time.Duration
	add    func(name string) (string, any)
	update func(token, name string) any
	same   func(token string, want any) bool
	get    func(token string) error
}

func rvStore(db *badger.DB) store {
	s := rv.NewSessionDB(db)
	entry := func(name string) rv.SessionEntry {
		return rv.SessionEntry{Protocol: fs.To0, NonceTO0Sign: nonce(name + " to0"), NonceTO1Proof: nonce(name + " to1"), EASigInfo: fs.SigInfo{SgType: fs.StSECP256R1, Info: vx.Bytes(name+" info", 1)}}
	}
	return store{max: protocol,
		add: func(name string) (string, any) {
			e := entry(name)
			t, err := s.NewSessionEntry(e)
			must(err, "a session is stored")
			return string(t), e
		},
		update: func(token, name string) any {
			e := entry(name)
			must(s.UpdateSessionEntry([]byte(token), e), "a session is updated")
			return e
		},
		same: func(token string, want any) bool {
			w := want.(rv.SessionEntry)
			g, err := s.GetSessionEntry([]byte(token))
			return err == nil && all(g.NonceTO0Sign == w.NonceTO0Sign, g.NonceTO1Proof == w.NonceTO1Proof, vx.EqBytes(g.EASigInfo.Info, w.EASigInfo.Info), g.Protocol == w.Protocol)
		},
		get: func(token string) error { _, err := s.GetSessionEntry([]byte(token)); return err },
	}
}

func doStore(db *badger.DB) store {
	s := dodbs.NewSessionDB(db)
	entry := func(name string) dodbs.SessionEntry {
		return dodbs.SessionEntry{Protocol: fs.To2, PrevCMD: 61, NonceTO2ProveOV60: nonce(name + " 60"), NonceTO2ProveDv61: nonce(name + " 61"), PrivateKeyDER: vx.Bytes(name+" key", 2),
			SessionKey: fs.SessionKeyInfo{ShSe: vx.Bytes(name+" secret", 2)}, NumOVEntries: 3, OwnerSIMs: []fs.ServiceInfoKV{{ServiceInfoKey: "a:b", ServiceInfoVal: vx.Bytes(name+" sim", 1)}}}
	}
	return store{max: protocol,
		add: func(name string) (string, any) {
			e := entry(name)
			t, err := s.NewSessionEntry(e)
			must(err, "a session is stored")
			return string(t), e
		},
		update: func(token, name string) any {
			e := entry(name)
			must(s.UpdateSessionEntry([]byte(token), e), "a session is updated")
			return e
		},
		same: func(token string, want any) bool {
			w := want.(dodbs.SessionEntry)
			g, err := s.GetSessionEntry([]byte(token))
			return err == nil && all(g.NonceTO2ProveOV60 == w.NonceTO2ProveOV60, g.NonceTO2ProveDv61 == w.NonceTO2ProveDv61, vx.EqBytes(g.PrivateKeyDER, w.PrivateKeyDER),
				vx.EqBytes(g.SessionKey.ShSe, w.SessionKey.ShSe), len(g.OwnerSIMs) == 1 && vx.EqBytes(g.OwnerSIMs[0].ServiceInfoVal, w.OwnerSIMs[0].ServiceInfoVal), g.PrevCMD == 61)
		},
		get: func(token string) error { _, err := s.GetSessionEntry([]byte(token)); return err },
	}
}

func apiStore(db *badger.DB) store {
	s := dbs.NewSessionDB(db)
	text := func(name string) string {
		b := vx.Bytes(name, 2)
		vx.Assume(vx.And(b[0] < 0x80, b[1] < 0x80))
		return string(b)
	}
	entry := func(name string) dbs.SessionEntry {
		return dbs.SessionEntry{Email: text(name + " email"), LoggedIn: vx.Bool(name + " in"), OAuth2Nonce: text(name + " nonce")}
	}
	return store{max: management,
		add: func(name string) (string, any) {
			e := entry(name)
			t, err := s.NewSessionEntry(e)
			must(err, "a session is stored")
			return string(t), e
		},
		update: func(token, name string) any {
			e := entry(name)
			must(s.UpdateSessionEntry([]byte(token), e), "a session is updated")
			return e
		},
		same: func(token string, want any) bool {
			w := want.(dbs.SessionEntry)
			g, err := s.GetSessionEntry([]byte(token))
			return err == nil && all(vx.EqStr(g.Email, w.Email), g.LoggedIn == w.LoggedIn, vx.EqStr(g.OAuth2Nonce, w.OAuth2Nonce))
		},
		get: func(token string) error { _, err := s.GetSessionEntry([]byte(token)); return err },
	}
}

func stores(db *badger.DB) []store { return []store{rvStore(db), doStore(db), apiStore(db)} }

// Sessions of any content: an update changes one of them, and all of them expire.
func H_store() {
	vx.Option("concrete-rand", 1)
	db := vxm.OpenDB()
	every := stores(db)
	k := vx.Choose("kind", 3)
	s := every[k]
	type sess struct {
		s     store
		token string
		want  any
	}
	var l []*sess
	add := func(s store, name string) {
		t, w := s.add(name)
		for _, o := range l {
			vx.Assert(o.token != t, "session tokens are never reused")
		}
		vx.Assert(len(t) >= 16, "a session token is long enough")
		l = append(l, &sess{s, t, w})
		lifetime(db, t, s.max)
	}
	add(s, "first")
	add(s, "second")
	add(every[vx.Choose("other kind", 3)], "other")
	n := vx.Bound("updates", 1, 3)
	for i := 0; i < n; i++ {
		which := l[vx.Choose("updated", len(l))]
		before := vxm.Dump(db)
		which.want = which.s.update(which.token, "update")
		only(db, before, which.token)
		lifetime(db, which.token, which.s.max)
	}
	for _, x := range l {
		vx.Assert(x.s.same(x.token, x.want), "a session holds what was last stored in it")
	}
	vxm.Advance(db, protocol+slack)
	for _, x := range l {
		if x.s.max == protocol {
			vx.Assert(x.s.get(x.token) != nil, "a session is gone after its lifetime")
		}
	}
	vxm.Advance(db, management)
	for _, x := range l {
		vx.Assert(x.s.get(x.token) != nil, "a session is gone after its lifetime")
	}
	vx.Assert(len(vxm.Dump(db)) == 0, "nothing is left of expired sessions")
}

// A token is good for its kind of session only, and for no token nearly like it.
func H_tokens() {
	vx.Option("concrete-rand", 1)
	db := vxm.OpenDB()
	every := stores(db)
	k := vx.Choose("kind", 3)
	t, w := every[k].add("session")
	for i, s := range every {
		if i != k {
			vx.Assert(s.get(t) != nil, "a token is not good for another kind of session")
		}
	}
	b := []byte(t)
	switch vx.Choose("other", 4) {
	case 0:
		c := vx.Byte("letter")
		i := []int{0, 17, len(b) - 1}[vx.Choose("at", 3)]
		vx.Assume(c != b[i])
		b[i] = c
	case 1:
		b = b[:vx.Choose("length", len(b))]
	case 2:
		b = append(b, vx.Bytes("more", 1+vx.Choose("added", 2))...)
	case 3:
		b = append([]byte("session-"), b...)
	}
	for _, s := range every {
		vx.Assert(s.get(string(b)) != nil, "a token that was not given out is no session")
	}
	vx.Assert(every[k].same(t, w), "a session holds what was last stored in it")
}

func guid(b byte) fs.FdoGuid { return fs.FdoGuid{b, 1} }

func voucher(b byte) *vxf.Voucher {
	return vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: guid(b), Rv: vxf.SomeRv(), Secret: []byte("0123456789abcdef")})
}

// The rendezvous server: messages of one session leave the others as they are.
func H_rendezvous() {
	vx.Option("concrete-rand", 1)
	db := vxm.OpenDB()
	s := vxs.RVOn(db)
	v := voucher(0xa0)
	t0, n0 := s.Hello0()
	lifetime(db, t0, protocol)
	b := vxf.Marshal(vxs.NewReg(v, n0, 60).Message())
	before := vxm.Dump(db)
	rec := s.Post(22, &t0, b)
	vx.Assert(vxs.OK(rec, "23"), "a correct registration is accepted")
	// others
	o0, _ := s.Hello0()
	o1, _ := s.Hello1(guid(0xa0), v.DevSg)
	api, _ := apiStore(db).add("api")
	do, _ := doStore(db).add("do")
	x0, m0 := s.Hello0()
	x1, m1 := s.Hello1(guid(0xa0), v.DevSg)
	tokens := []string{t0, o0, o1, "Bearer " + api, "Bearer " + do, x0, x1}
	for i := range tokens {
		for j := range tokens[:i] {
			vx.Assert(tokens[i] != tokens[j], "session tokens are never reused")
		}
	}
	before = sessions(db)
	switch vx.Choose("message", 6) {
	case 0:
		t, _ := s.Hello0()
		grown(db, before, t, protocol)
		return
	case 1:
		t, _ := s.Hello1(guid(0xa0), v.DevSg)
		grown(db, before, t, protocol)
		return
	case 2:
		vx.Assert(vxs.OK(s.Post(22, &x0, vxf.Marshal(vxs.NewReg(v, m0, 60).Message())), "23"), "a correct registration is accepted")
		only2(db, before, x0)
	case 3:
		vx.Assert(vxs.OK(s.Post(32, &x1, prove(v, m1)), "33"), "a correct device proof is accepted")
		only2(db, before, x1)
	case 4: // tokens of other kinds
		t := tokens[vx.Choose("token", 7)]
		vx.Assume(t != t0 && t != o0 && t != x0)
		vxs.IsError(s.Post(22, &t, vxf.Marshal(vxs.NewReg(v, m0, 60).Message())), 22)
		only2(db, before, "")
	case 5:
		t := tokens[vx.Choose("token", 7)]
		vx.Assume(t != o1 && t != x1)
		vxs.IsError(s.Post(32, &t, prove(v, m1)), 32)
		only2(db, before, "")
	}
}

func prove(v *vxf.Voucher, n fs.FdoNonce) []byte {
	p := fs.EATPayloadBase{EatNonce: n, EatUEID: fs.GenerateEatGuid(v.H.OVGuid)}
	s, err := fs.GenerateCoseSignature(vxf.Marshal(p), fs.ProtectedHeader{}, fs.UnprotectedHeader{}, v.DevKey, v.DevSg)
	must(err, "a proof is signed")
	return vxf.Marshal(*s)
}

// sessions is the part of the store that holds sessions.
func sessions(db *badger.DB) []vxm.KV {
	var r []vxm.KV
	for _, e := range vxm.Dump(db) {
		if strings.HasPrefix(e.Key, "session-") {
			r = append(r, e)
		}
	}
	return r
}

// only2 compares sessions only.
func only2(db *badger.DB, before []vxm.KV, token string) {
	own := "session-" + strings.TrimPrefix(token, "Bearer ")
	after := sessions(db)
	vx.Assert(len(after) <= len(before), "no other session appears")
	for _, a := range before {
		if a.Key == own {
			continue
		}
		kept := false
		for _, b := range after {
			if a.Key == b.Key {
				d := a.TTL - b.TTL
				kept = vx.And(vx.EqStr(a.Val, b.Val), a.Expires == b.Expires && d < slack && d > -slack)
			}
		}
		vx.Assert(kept, "no other session changes")
	}
	for _, b := range after {
		if b.Key == own {
			vx.Assert(b.Expires && b.TTL <= protocol+slack, "a session's lifetime is bounded by that of its kind")
		}
	}
}

// grown is the claim that one session came to the others.
func grown(db *badger.DB, before []vxm.KV, token string, max time.Duration) {
	own := "session-" + strings.TrimPrefix(token, "Bearer ")
	for _, a := range before {
		vx.Assert(a.Key != own, "session tokens are never reused")
	}
	lifetime(db, token, max)
	vx.Assert(len(sessions(db)) == len(before)+1, "a hello makes one session")
	for _, a := range before {
		kept := false
		for _, b := range sessions(db) {
			if a.Key == b.Key {
				kept = vx.EqStr(a.Val, b.Val)
			}
		}
		vx.Assert(kept, "no other session changes")
	}
}

// The onboarding server: at every step of a session, messages of it leave the others as they are.
func H_onboarding() {
	vx.Option("concrete-rand", 1)
	db := vxm.OpenDB()
	s := vxs.DOOn(db)
	v, w := voucher(0xa0), voucher(0xb0)
	s.Add(v)
	s.Add(w)
	rvStore(db).add("rv")
	apiStore(db).add("api")
	// another session of the same device and one of another, each at any step
	lasts := []fs.FdoCmd{61, 63, 65, 67, 69, 71}
	a := s.At(v, lasts[vx.Choose("same device at", vx.Bound("steps of the other sessions", 1, 6))], fs.CIPHER_A128GCM)
	b := s.At(w, lasts[vx.Choose("other device at", vx.Bound("steps of the other sessions", 1, 6))], fs.CIPHER_A128GCM)
	_, _ = a, b
	before := sessions(db)
	d := s.Hello60(v, fs.KEX_ECDH256, fs.CIPHER_A128GCM)
	grown(db, before, d.Token, protocol)
	stop := vx.Choose("message", 7)
	step := func(f func()) bool {
		before := sessions(db)
		f()
		only2(db, before, d.Token)
		lifetime(db, d.Token, protocol)
		stop--
		return stop < 0
	}
	if step(d.Entries) {
		return
	}
	if step(d.Prove64) {
		return
	}
	if step(d.Ready66) {
		return
	}
	if step(func() { vx.Assert(vxs.OK(d.Info68(false, vxs.SIMs()), "69"), "service info in turn is accepted") }) {
		return
	}
	if step(func() { vx.Assert(vxs.OK(d.Done70(), "71"), "done is accepted") }) {
		return
	}
	step(func() { // a message of no session
		t := "Bearer none"
		vxs.IsError(s.Post(62, &t, vxf.Marshal(fs.GetOVNextEntry62{})), 62)
	})
}

// Messages that are refused touch no session either.
func H_refused() {
	vx.Option("concrete-rand", 1)
	db := vxm.OpenDB()
	s := vxs.DOOn(db)
	v := voucher(0xa0)
	s.Add(v)
	var l []string
	t, _ := rvStore(db).add("rv")
	l = append(l, "Bearer "+t)
	t, _ = apiStore(db).add("api")
	l = append(l, "Bearer "+t)
	for _, c := range []fs.FdoCmd{61, 65, 69} {
		l = append(l, s.At(v, c, fs.CIPHER_A128GCM).Token)
	}
	cmd := []fs.FdoCmd{60, 62, 64, 66, 68, 70}[vx.Choose("message", 6)]
	tok := l[vx.Choose("token", len(l))]
	body := vx.Bytes("body", vx.Choose("length", 2))
	before := sessions(db)
	rec := s.Post(cmd, &tok, body)
	if rec.Code >= 400 {
		only2(db, before, "")
		return
	}
	only2(db, before, tok)
}
