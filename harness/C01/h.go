package main

import (
	"time"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/rv"
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxm"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxs"
)

func guid(name string) (g fs.FdoGuid) {
	copy(g[:], vx.Bytes(name, 16))
	return
}

const month = 30 * 24 * 60 * 60

func voucher(n int) *vxf.Voucher {
	i := vx.Choose("owner key type", vx.Bound("owner key types", 2, 4))
	return vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: vxf.SgTypes[i], N: n, Guid: guid("guid")})
}

// stored claims that the redirect kept for g is m, for wait seconds.
func stored(s *vxs.RV, before []vxm.KV, g fs.FdoGuid, m fs.OwnerSign22, wait uint32) {
	db := rv.NewOwnerSignDB(s.DB)
	got, err := db.Get(g)
	if err != nil { // a wait of 0 s expires at once
		vx.Assert(wait == 0, "an accepted registration stores the redirect of the voucher's GUID")
		return
	}
	vx.Assert(vx.EqBytes(vxf.Marshal(got.To1d), vxf.Marshal(m.To1d)), "the redirect stored is the blob received")
	vx.Assert(vx.EqBytes(got.To0d, m.To0d), "the registration stored is the one received")
	c := vxs.Changed(before, vxs.Snap(s.DB, true))
	vx.Assert(len(c) == 1, "an accepted registration stores one redirect")
	for _, e := range c {
		vx.Assert(e.Expires, "a stored redirect expires")
		d := time.Duration(wait) * time.Second
		vx.Assert(e.TTL == d || vx.And(e.TTL <= d, e.TTL >= d-2*time.Second), "a stored redirect expires after the agreed wait")
	}
}

func accepted(rec *vxm.Rec, token string, asked uint32) uint32 {
	wait := asked
	if wait > month {
		wait = month
	}
	vx.Assert(vxs.OK(rec, "23"), "a correct registration is accepted")
	vx.Assert(rec.H.Get("Authorization") == token, "the answer carries the session token")
	var a fs.AcceptOwner23
	vx.Assert(fs.CborCust.Unmarshal(rec.Body, &a) == nil, "the answer to a registration decodes")
	vx.Assert(a.WaitSeconds == wait, "the wait acknowledged is the smaller of 30 days and the wait asked for")
	return wait
}

// A correct registration, for every wait, GUID, number of entries and usable address.
func H_accept() {
	s := vxs.NewRV()
	tok, nonce := s.Hello0()
	v := voucher(1 + vx.Choose("entries", 2))
	asked := vx.U32("wait")
	r := vxs.NewReg(v, nonce, asked)
	e := &r.Addrs[0]
	e.RVPort = vx.U16("port")
	switch vx.Choose("address", 4) {
	case 0:
		d := string([]byte{'a' + vx.Byte("dns")%26, '.', 'x'})
		e.RVDNS = &d
	case 1:
		ip := fs.FdoIPAddress(vx.Bytes("ip", 4))
		e.RVDNS, e.RVIP = nil, &ip
	case 2:
		ip := fs.FdoIPAddress(vx.Bytes("ip", 16))
		e.RVIP = &ip
	case 3:
		ip := fs.FdoIPAddress(vx.Bytes("ip", 4))
		r.Addrs = append(r.Addrs, fs.RVTO2AddrEntry{RVIP: &ip, RVPort: vx.U16("port 2"), RVProtocol: fs.ProtHTTP})
	}
	m := r.Message()
	before := vxs.Snap(s.DB, true)
	rec := s.Post(22, &tok, vxf.Marshal(m))
	wait := accepted(rec, tok, asked)
	stored(s, before, v.H.OVGuid, m, wait)
}

func flip(name string, b []byte) []byte {
	r := append([]byte{}, b...)
	at := vx.Choose(name+" at", 4) * (len(b) - 1) / 3
	d := vx.Byte(name + " difference")
	vx.Assume(d != 0)
	r[at] ^= d
	return r
}

// Every single deviation is refused and leaves the redirects as they are.
func H_refuse() {
	s := vxs.NewRV()
	tok, nonce := s.Hello0()
	v := voucher(vx.Bound("entries", 1, 2))
	if vx.Choose("registered before", 2) == 1 {
		r := vxs.NewReg(v, nonce, 3600)
		m := r.Message()
		accepted(s.Post(22, &tok, vxf.Marshal(m)), tok, 3600)
		if vx.Choose("new session", 2) == 1 {
			tok, nonce = s.Hello0()
		}
	}
	r := vxs.NewReg(v, nonce, 3600)
	ct := "application/cbor"
	post := &tok
	tamper := func(m *fs.OwnerSign22) {}
	var body []byte
	switch vx.Choose("deviation", 20) {
	case 0: // any other nonce
		copy(r.To0d.NonceTO0Sign[:], vx.Bytes("nonce", 16))
		vx.Assume(r.To0d.NonceTO0Sign != nonce)
	case 1: // the nonce of another session
		_, r.To0d.NonceTO0Sign = s.Hello0()
		vx.Assume(r.To0d.NonceTO0Sign != nonce)
	case 2: // the token of another session
		t, n := s.Hello0()
		vx.Assume(n != nonce)
		post = &t
	case 3: // no token
		post = nil
	case 4: // unknown token
		t := "Bearer " + string([]byte{'a' + vx.Byte("token")%26, '-'})
		post = &t
	case 5: // expired session
		vxm.Advance(s.DB, 10*time.Minute+time.Second)
	case 6: // the previous owner
		r.Signer = v.Owner[len(v.Owner)-2]
	case 7: // a stranger
		r.Signer, _ = vxf.Key(v.Sg)
	case 8: // the hash of something else
		h := vxf.Hash(vx.Bytes("hashed", vx.Choose("hashed length", 3)), v.HashAlg)
		r.Hash = &h
	case 9: // any other digest
		h := vxf.Hash(vxf.Marshal(r.To0d), v.HashAlg)
		h.Hash = flip("digest", h.Hash)
		r.Hash = &h
	case 10: // an HMAC in place of the hash
		h, _ := fs.GenerateFdoHmac(vxf.Marshal(r.To0d), fs.HASH_HMAC_SHA256, nil)
		r.Hash = &h
	case 11: // no address
		r.Addrs[0].RVDNS = nil
	case 12: // no address in the second entry
		r.Addrs = append(r.Addrs, fs.RVTO2AddrEntry{RVPort: vx.U16("port"), RVProtocol: fs.ProtHTTP})
	case 13: // an unrelated entry in the voucher
		k, p := vxf.Key(v.Sg)
		n := len(v.V.OVEntryArray)
		r.To0d.OwnershipVoucher.OVEntryArray = append(v.V.OVEntryArray[:n:n], v.Entry(vxf.Hash(v.Prev(n), v.HashAlg), p, k))
		r.Signer = k
	case 14: // another GUID in the header
		h := v.H
		h.OVGuid = guid("other guid")
		vx.Assume(h.OVGuid != v.H.OVGuid)
		r.To0d.OwnershipVoucher.OVHeaderTag = vxf.Marshal(h)
	case 15: // another certificate chain
		k, _ := vxf.Key(v.DevSg)
		c := vxf.Chain(k)
		r.To0d.OwnershipVoucher.OVDevCertChain = &c
	case 16: // changed after signing
		tamper = func(m *fs.OwnerSign22) {
			switch vx.Choose("part", 4) {
			case 0:
				p := vxf.Marshal(fs.To1dBlobPayload{To1dRV: []fs.RVTO2AddrEntry{{RVDNS: r.Addrs[0].RVDNS, RVPort: 1, RVProtocol: fs.ProtHTTP}}, To1dTo0dHash: vxf.Hash(m.To0d, v.HashAlg)})
				m.To1d.Payload = p
			case 1:
				m.To1d.Signature = flip("signature", m.To1d.Signature)
			case 2:
				m.To1d.Protected = flip("protected", m.To1d.Protected)
			case 3:
				r.To0d.WaitSeconds = vx.U32("wait")
				vx.Assume(r.To0d.WaitSeconds != 3600)
				m.To0d = vxf.Marshal(r.To0d)
			}
		}
	case 17:
		ct = []string{"", "text/plain", "application/json", "application/cbo", "application/cbor2"}[vx.Choose("content type", 5)]
	case 18: // no entries
		r.To0d.OwnershipVoucher.OVEntryArray = nil
		r.Signer = v.Owner[0]
	case 19: // not a registration
		body = vx.Bytes("body", vx.Choose("body length", vx.Bound("free body bytes", 1, 2)+1))
	}
	if body == nil {
		m := r.Message()
		tamper(&m)
		body = vxf.Marshal(m)
	}
	before := vxs.Snap(s.DB, true)
	rec := s.PostAs(22, ct, post, body)
	vx.Assert(rec.Code != 200, "a registration that deviates is refused")
	vxs.IsError(rec, 22)
	vx.Assert(vxs.Same(before, vxs.Snap(s.DB, true)), "a refused registration changes no redirect")
}

// A session of TO1 is no session of TO0.
func H_foreign_session() {
	s := vxs.NewRV()
	tok, nonce := s.Hello0()
	v := voucher(1)
	accepted(s.Post(22, &tok, vxf.Marshal(vxs.NewReg(v, nonce, 3600).Message())), tok, 3600)
	t1, n1 := s.Hello1(v.H.OVGuid, v.DevSg)
	if vx.Choose("nonce", 2) == 1 {
		n1 = fs.FdoNonce{}
	}
	before := vxs.Snap(s.DB, true)
	r := vxs.NewReg(v, n1, vx.U32("wait"))
	rec := s.Post(22, &t1, vxf.Marshal(r.Message()))
	vx.Assert(rec.Code != 200, "a registration in a TO1 session is refused")
	vxs.IsError(rec, 22)
	vx.Assert(vxs.Same(before, vxs.Snap(s.DB, true)), "a refused registration changes no redirect")
}

// Registrations of two devices, in either order, in their own or one session.
func H_two() {
	s := vxs.NewRV()
	a := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: guid("guid")})
	b := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: 1, Guid: guid("guid 2")})
	vx.Assume(a.H.OVGuid != b.H.OVGuid)
	ta, na := s.Hello0()
	tb, nb := ta, na
	if vx.Choose("sessions", 2) == 1 {
		tb, nb = s.Hello0()
		vx.Assert(ta != tb, "each session has its own token")
	}
	ma := vxs.NewReg(a, na, 3600).Message()
	before := vxs.Snap(s.DB, true)
	accepted(s.Post(22, &ta, vxf.Marshal(ma)), ta, 3600)
	stored(s, before, a.H.OVGuid, ma, 3600)
	before = vxs.Snap(s.DB, true)
	mb := vxs.NewReg(b, nb, 7200).Message()
	accepted(s.Post(22, &tb, vxf.Marshal(mb)), tb, 7200)
	stored(s, before, b.H.OVGuid, mb, 7200)
	db := rv.NewOwnerSignDB(s.DB)
	got, err := db.Get(a.H.OVGuid)
	vx.Assert(err == nil && vx.EqBytes(vxf.Marshal(got.To1d), vxf.Marshal(ma.To1d)), "a registration leaves the redirect of another device alone")
	// the first device again, now handed on
	before = vxs.Snap(s.DB, true)
	a.Extend()
	mc := vxs.NewReg(a, na, 60).Message()
	accepted(s.Post(22, &ta, vxf.Marshal(mc)), ta, 60)
	stored(s, before, a.H.OVGuid, mc, 60)
	vxm.Advance(s.DB, 61*time.Second)
	_, err = db.Get(a.H.OVGuid)
	vx.Assert(err != nil, "a redirect is gone after the agreed wait")
	_, err = db.Get(b.H.OVGuid)
	vx.Assert(err == nil, "a redirect is kept for the agreed wait")
}

// H_long: a registration of a long voucher with many addresses, right or wrong in one place.
func H_long() {
	vx.Option("concrete-rand", 1)
	s := vxs.NewRV()
	tok, nonce := s.Hello0()
	n := vx.Bound("entries of a long voucher", 12, 40)
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: vxf.SgTypes[vx.Choose("owner key type", 2)], N: n})
	r := vxs.NewReg(v, nonce, 3600)
	for i := 1; i < 6; i++ {
		ip := fs.FdoIPAddress([]byte{10, 0, 0, byte(i)})
		r.Addrs = append(r.Addrs, fs.RVTO2AddrEntry{RVIP: &ip, RVPort: uint16(i), RVProtocol: fs.ProtHTTP})
	}
	fault := vx.Choose("deviation", 6)
	evil, _ := vxf.Key(v.Sg)
	at := vx.Choose("entry", n)
	if fault == 0 || fault > 2 {
		vx.Assume(at == 0)
	}
	e := append([]fs.CoseSignature{}, v.V.OVEntryArray...)
	switch fault {
	case 1:
		e[at] = v.Entry(vxf.Hash(v.Prev(at), v.HashAlg), v.OwnerPub[at+1], evil)
	case 2:
		e[at] = v.Entry(vxf.Hash(v.Prev(at)[1:], v.HashAlg), v.OwnerPub[at+1], v.Owner[at])
	case 3:
		i := vx.Choose("address", len(r.Addrs))
		r.Addrs[i].RVIP, r.Addrs[i].RVDNS = nil, nil
	case 4: // a part of the digest
		h := vxf.Hash(vxf.Marshal(r.To0d), v.HashAlg)
		h.Hash = h.Hash[:vx.Choose("part", 4)*len(h.Hash)/4]
		r.Hash = &h
	case 5: // an earlier owner
		r.Signer = v.Owner[vx.Choose("signer", n)]
	}
	r.To0d.OwnershipVoucher.OVEntryArray = e
	m := r.Message()
	before := vxs.Snap(s.DB, true)
	rec := s.Post(22, &tok, vxf.Marshal(m))
	vx.Expect("accepted")
	vx.Expect("refused")
	if fault == 0 {
		vx.Reach("accepted")
		stored(s, before, v.H.OVGuid, m, accepted(rec, tok, 3600))
		return
	}
	vx.Reach("refused")
	vxs.IsError(rec, 22)
	vx.Assert(vxs.Same(before, vxs.Snap(s.DB, true)), "a refused registration leaves the redirects as they are")
}
