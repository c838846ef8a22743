package main

import (
	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx"
	"github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vxf"
)

func guid() (g fs.FdoGuid) {
	copy(g[:], vx.Bytes("guid", 16))
	return
}

func secret() []byte { return vx.Bytes("secret", 32) }

func build(n int) *vxf.Voucher {
	i := vx.Choose("owner key type", 4)
	return buildSg(n, i)
}

func buildSg(n, i int) *vxf.Voucher {
	return vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: vxf.SgTypes[i], N: n, Guid: guid(), Secret: secret()})
}

func wire(v fs.OwnershipVoucher) fs.OwnershipVoucher {
	var r fs.OwnershipVoucher
	vx.Assert(fs.CborCust.Unmarshal(vxf.Marshal(v), &r) == nil, "a voucher decodes")
	return r
}

func accepted(v fs.OwnershipVoucher) bool { return v.VerifyOVEntries() == nil }

// A correct chain is accepted, also over the wire, and names the owner of its last entry.
func H_chain() {
	n := 1 + vx.Choose("entries", vx.Bound("entries of a correct voucher", 3, 6))
	v := build(n)
	vx.Assert(accepted(v.V), "a correct chain is accepted")
	w := wire(v.V)
	vx.Assert(accepted(w), "a correct chain is accepted after transport")
	k, err := w.GetFinalOwnerPublicKey()
	vx.Assert(err == nil && k.Equal(v.OwnerPub[n]) == nil, "the final owner is the one the last entry names")
	for i := range w.OVEntryArray {
		k, err := w.OVEntryArray[i].GetOVEntryPubKey()
		vx.Assert(err == nil && k.Equal(v.OwnerPub[i+1]) == nil, "each entry names its owner")
	}
	// and stays correct when the owner hands it on
	v.Extend()
	vx.Assert(accepted(v.V), "a correct chain is accepted")
}

// Every combination, per entry, of who signs it and what its previous hash covers.
func H_entries() {
	n := vx.Bound("entries", 2, 3)
	v := buildSg(0, vx.Choose("owner key type", 2))
	ok := true
	hashes := []fs.HashType{v.HashAlg, fs.HASH_SHA256, fs.HASH_SHA384}
	odd := 1 + vx.Choose("first wrong entry", n+1) // entries before it are right
	wrongs := 0
	for i := 0; i < n; i++ {
		right := v.Prev(i)
		h := vxf.Hash(right, hashes[0])
		signer := v.Owner[i]
		if i+1 == odd || (i+1 > odd && vx.Choose("also wrong", vx.Bound("wrong entries after the first", 1, 2)) == 1) {
			wrongs++
			switch vx.Choose("fault", 10) {
			case 0: // signed by an unrelated key of the type
				signer, _ = vxf.Key(v.Sg)
				ok = false
			case 1: // signed by an owner of another time
				vx.Assume(i > 0)
				at := vx.Choose("owner", i)
				vx.Assume(v.OwnerPub[at].Equal(v.OwnerPub[i]) != nil)
				signer = v.Owner[at]
				ok = false
			case 2: // hash over other content
				h = vxf.Hash(vx.Bytes("other content", vx.Choose("other length", 4)), v.HashAlg)
				ok = false
			case 3: // first: header without HMAC, later: the entry before the previous one
				if i == 0 {
					h = vxf.Hash(v.V.OVHeaderTag, v.HashAlg)
				} else {
					h = vxf.Hash(v.Prev(i-1), v.HashAlg)
				}
				ok = false
			case 4: // first: the HMAC only, later: the payload of the previous entry
				if i == 0 {
					h = vxf.Hash(vxf.Marshal(v.V.OVHeaderHMac), v.HashAlg)
				} else {
					h = vxf.Hash(v.V.OVEntryArray[i-1].Payload, v.HashAlg)
				}
				ok = false
			case 5: // another digest
				n := len(h.Hash)
				h.Hash = vx.Bytes("digest", n)
				vx.Assume(!vx.EqBytes(h.Hash, vxf.Hash(right, v.HashAlg).Hash))
				ok = false
			case 6: // a prefix of the digest
				h.Hash = h.Hash[:vx.Choose("digest length", len(h.Hash))]
				ok = false
			case 7: // more than the digest
				h.Hash = append(append([]byte{}, h.Hash...), vx.Byte("more"))
				ok = false
			case 8: // another type
				h.Type = fs.HashType(int(vx.U16("hash type")) - 100)
				vx.Assume(h.Type != v.HashAlg)
				ok = false
			case 9: // the HMAC type with a right HMAC under the empty key
				t := fs.HASH_HMAC_SHA256
				x, _ := fs.GenerateFdoHmac(right, t, nil)
				h = x
				ok = false
			}
		}
		k, p := vxf.Key(v.Sg)
		if vx.Choose("names its own owner again", 2) == 1 { // an entry may hand on to the same key
			k, p = v.Owner[i], v.OwnerPub[i]
		}
		v.V.OVEntryArray = append(v.V.OVEntryArray, v.Entry(h, p, signer))
		v.Owner, v.OwnerPub = append(v.Owner, k), append(v.OwnerPub, p)
	}
	got := accepted(v.V)
	vx.Assert(vx.Implies(ok, got), "a correct chain is accepted")
	vx.Assert(vx.Implies(got, ok), "an entry with a wrong signer or previous hash is rejected")
	vx.Assert(wire(v.V).VerifyOVEntries() == nil == ok, "an entry with a wrong signer or previous hash is rejected")
}

func flip(name string, b []byte) []byte {
	r := append([]byte{}, b...)
	at := vx.Int(name+" at", 0, len(b)-1)
	d := vx.Byte(name + " difference")
	vx.Assume(d != 0)
	r[at] ^= d
	return r
}

// One changed byte anywhere in an entry, in the header or in its HMAC.
func H_alter() {
	n := vx.Bound("entries", 2, 3)
	v := buildSg(n, vx.Choose("owner key type", vx.Bound("owner key types", 2, 4)))
	t := v.V
	t.OVEntryArray = append(fs.OVEntryArray{}, v.V.OVEntryArray...)
	i := vx.Choose("entry", n)
	e := &t.OVEntryArray[i]
	switch vx.Choose("part", 8) {
	case 0:
		e.Protected = flip("protected", e.Protected)
	case 1: // the key named by the entry
		k, p := vxf.Key(v.Sg)
		var pl fs.OVEntryPayload
		vx.Assert(fs.CborCust.Unmarshal(e.Payload, &pl) == nil, "an entry decodes")
		pl.OVEPubKey = p
		_ = k
		e.Payload = vxf.Marshal(pl)
	case 2: // anything else in the payload
		var pl fs.OVEntryPayload
		vx.Assert(fs.CborCust.Unmarshal(e.Payload, &pl) == nil, "an entry decodes")
		switch vx.Choose("payload field", 3) {
		case 0:
			x := vx.Bytes("extra", 2)
			pl.OVEExtra = &x
		case 1:
			pl.OVEHashHdrInfo.Hash = flip("header info hash", pl.OVEHashHdrInfo.Hash)
		case 2:
			pl.OVEHashPrevEntry.Hash = flip("previous hash", pl.OVEHashPrevEntry.Hash)
		}
		e.Payload = vxf.Marshal(pl)
	case 3: // the payload of another entry
		j := vx.Choose("other entry", n)
		vx.Assume(j != i)
		e.Payload = v.V.OVEntryArray[j].Payload
	case 4:
		j := vx.Choose("other entry", n)
		vx.Assume(j != i)
		e.Signature = v.V.OVEntryArray[j].Signature
	case 5: // an unprotected header in an entry that another one follows
		vx.Assume(i < n-1)
		var nonce fs.FdoNonce
		copy(nonce[:], vx.Bytes("nonce", 16))
		e.Unprotected.CUPHNonce = &nonce
	case 6:
		t.OVHeaderHMac.Hash = flip("hmac", t.OVHeaderHMac.Hash)
	case 7:
		h := v.H
		switch vx.Choose("header field", 4) {
		case 0:
			copy(h.OVGuid[:], flip("guid", h.OVGuid[:]))
		case 1:
			h.OVDeviceInfo = "dew"
		case 2:
			_, h.OVPublicKey = vxf.Key(v.Sg)
		case 3:
			h.OVDevCertChainHash = &fs.HashOrHmac{Type: h.OVDevCertChainHash.Type, Hash: flip("chain hash", h.OVDevCertChainHash.Hash)}
		}
		t.OVHeaderTag = vxf.Marshal(h)
	}
	vx.Assert(!accepted(t), "an altered entry, header or header HMAC is rejected")
}

// A signature byte at a sample of positions in an entry.
func H_signature_byte() {
	n := 2
	v := build(n)
	t := v.V
	t.OVEntryArray = append(fs.OVEntryArray{}, v.V.OVEntryArray...)
	i := vx.Choose("entry", n)
	e := &t.OVEntryArray[i]
	g := append([]byte{}, e.Signature...)
	at := vx.Choose("signature byte", 8) * (len(g) / 8)
	d := vx.Byte("difference")
	vx.Assume(d != 0)
	g[at] ^= d
	e.Signature = g
	vx.Assert(!accepted(t), "an entry with an altered signature is rejected")
}

// Every list of entries of a correct voucher other than one of its beginnings.
func H_rearrange() {
	n := vx.Bound("entries", 2, 3)
	v := build(n)
	m := 1 + vx.Choose("kept entries", n+1)
	var l fs.OVEntryArray
	prefix := true
	for i := 0; i < m; i++ {
		j := vx.Choose("entry", n)
		l = append(l, v.V.OVEntryArray[j])
		prefix = prefix && j == i
	}
	t := v.V
	t.OVEntryArray = l
	got := accepted(t)
	vx.Assert(got == prefix, "entries removed, repeated or reordered are rejected")
	if got {
		k, err := t.GetFinalOwnerPublicKey()
		vx.Assert(err == nil && k.Equal(v.OwnerPub[m]) == nil, "the final owner is the one the last entry names")
	}
}

// Entries of another voucher, of the same manufacturer and device or not.
func H_splice() {
	n := 2
	v := build(n)
	o := *v
	o.V.OVEntryArray = nil
	o.Owner, o.OwnerPub = o.Owner[:1], o.OwnerPub[:1]
	same := vx.Choose("header", 3)
	if same > 0 {
		o.H.OVDeviceInfo = "other"
		if same == 2 {
			k, p := vxf.Key(v.Sg)
			o.Owner, o.OwnerPub = []any{k}, []fs.FdoPublicKey{p}
			o.H.OVPublicKey = p
		}
		o.SetHeader()
	}
	for i := 0; i < n; i++ {
		o.Extend()
	}
	vx.Assert(accepted(o.V), "a correct chain is accepted")
	t := v.V
	t.OVEntryArray = append(fs.OVEntryArray{}, v.V.OVEntryArray...)
	right := true
	all := true
	for i := range t.OVEntryArray {
		if vx.Choose("from the other", 2) == 1 {
			t.OVEntryArray[i] = o.V.OVEntryArray[i]
			right = false
		} else {
			all = false
		}
	}
	vx.Assert(accepted(t) == (right || (all && same == 0)), "entries of another voucher are rejected")
}

// A voucher without entries names no final owner.
func H_no_entries() {
	v := build(0)
	_, err := v.V.GetFinalOwnerPublicKey()
	vx.Assert(err != nil, "a voucher without entries names no final owner")
}

// Long chains: the checks hold for an entry at any place, not the first ones only.
func H_long() {
	vx.Option("concrete-rand", 1)
	n := vx.Bound("entries of a long voucher", 10, 20)
	v := vxf.Build(vxf.Opt{DevSg: fs.StSECP256R1, Sg: fs.StSECP256R1, N: n, Guid: fs.FdoGuid{1, 2, 3}, Secret: []byte("secret")})
	vx.Assert(accepted(v.V), "a correct chain is accepted")
	k, err := v.V.GetFinalOwnerPublicKey()
	vx.Assert(err == nil && k.Equal(v.OwnerPub[n]) == nil, "the final owner is the one the last entry names")
	i := vx.Choose("entry", n)
	t := v.V
	t.OVEntryArray = append(fs.OVEntryArray{}, v.V.OVEntryArray...)
	h := vxf.Hash(v.Prev(i), v.HashAlg)
	other, otherPub := vxf.Key(v.Sg)
	last := i == n-1
	bad := true
	switch vx.Choose("fault", 7) {
	case 0: // another signer
		t.OVEntryArray[i] = v.Entry(h, v.OwnerPub[i+1], other)
	case 1: // signed by the owner it names
		t.OVEntryArray[i] = v.Entry(h, v.OwnerPub[i+1], v.Owner[i+1])
	case 2: // another previous hash
		d := vx.Byte("difference")
		vx.Assume(d != 0)
		h.Hash = append([]byte{}, h.Hash...)
		h.Hash[vx.Int("at", 0, len(h.Hash)-1)] ^= d
		t.OVEntryArray[i] = v.Entry(h, v.OwnerPub[i+1], v.Owner[i])
	case 3: // hands on to another owner
		t.OVEntryArray[i] = v.Entry(h, otherPub, v.Owner[i])
		bad = !last
		if last {
			k, err := t.GetFinalOwnerPublicKey()
			vx.Assert(err == nil && k.Equal(otherPub) == nil, "the final owner is the one the last entry names")
		}
	case 4: // left out
		t.OVEntryArray = append(t.OVEntryArray[:i], t.OVEntryArray[i+1:]...)
		bad = !last
	case 5: // given twice
		t.OVEntryArray = append(append(append(fs.OVEntryArray{}, t.OVEntryArray[:i+1]...), t.OVEntryArray[i]), t.OVEntryArray[i+1:]...)
	case 6: // swapped with another
		j := vx.Choose("other entry", n)
		t.OVEntryArray[i], t.OVEntryArray[j] = t.OVEntryArray[j], t.OVEntryArray[i]
		bad = i != j
	}
	vx.Assert(accepted(t) == !bad, "a fault in any entry of a long voucher is found")
	vx.Reach("judged")
}
