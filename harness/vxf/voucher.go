package vxf

import (
	"bytes"

	fs "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

// Voucher is an ownership voucher with all its secrets.
type Voucher struct {
	V        fs.OwnershipVoucher
	H        fs.OwnershipVoucherHeader
	DevKey   any
	DevSg    fs.SgType
	Sg       fs.SgType         // of every owner
	Owner    []any             // private keys: the manufacturer's, then the one each entry names
	OwnerPub []fs.FdoPublicKey // public keys of Owner
	Secret   []byte            // HMAC secret of the device
	HashAlg  fs.HashType
	HmacAlg  fs.HashType
}

// OwnerKey is the private key of the final owner.
func (v *Voucher) OwnerKey() any { return v.Owner[len(v.Owner)-1] }

// Hash is the SHA digest of b.
func Hash(b []byte, t fs.HashType) fs.HashOrHmac {
	h, err := fs.GenerateFdoHash(b, t)
	must(err)
	return h
}

func Marshal(v any) []byte {
	b, err := fs.CborCust.Marshal(v)
	must(err)
	return b
}

func cat(b ...[]byte) []byte { return bytes.Join(b, nil) }

// Opt describes a voucher to build.
type Opt struct {
	DevSg, Sg fs.SgType
	N         int // number of entries
	Guid      fs.FdoGuid
	Secret    []byte
	Rv        fs.RendezvousInfo
	Info      string
}

// SomeRv is rendezvous information with one directive.
func SomeRv() fs.RendezvousInfo {
	return fs.RendezvousInfo{fs.RendezvousDirective{fs.NewRendezvousInstr(fs.RVProtocol, fs.RVProtHttp)}}
}

// Build makes a correct voucher.
func Build(o Opt) *Voucher {
	v := &Voucher{DevSg: o.DevSg, Sg: o.Sg, Secret: o.Secret}
	v.HashAlg, v.HmacAlg = fs.HASH_SHA256, fs.HASH_HMAC_SHA256
	if o.DevSg == fs.StSECP384R1 {
		v.HashAlg, v.HmacAlg = fs.HASH_SHA384, fs.HASH_HMAC_SHA384
	}
	if o.Sg == fs.StSECP384R1 || o.Sg == fs.StRSA3072 {
		v.HashAlg, v.HmacAlg = fs.HASH_SHA384, fs.HASH_HMAC_SHA384
	}
	if o.Rv == nil {
		o.Rv = SomeRv()
	}
	if o.Info == "" {
		o.Info = "dev"
	}
	if v.Secret == nil {
		v.Secret = bytes.Repeat([]byte{7}, 32)
	}
	v.DevKey, _ = Key(o.DevSg)
	chain := Chain(v.DevKey)
	mk, mp := Key(o.Sg)
	v.Owner, v.OwnerPub = []any{mk}, []fs.FdoPublicKey{mp}
	ch, err := fs.ComputeOVDevCertChainHash(chain, v.HashAlg)
	must(err)
	v.H = fs.OwnershipVoucherHeader{OVHProtVer: fs.ProtVer101, OVGuid: o.Guid, OVRvInfo: o.Rv, OVDeviceInfo: o.Info, OVPublicKey: mp, OVDevCertChainHash: &ch}
	v.V = fs.OwnershipVoucher{OVProtVer: fs.ProtVer101, OVDevCertChain: &chain}
	v.SetHeader()
	for i := 0; i < o.N; i++ {
		v.Extend()
	}
	return v
}

// SetHeader encodes v.H into the voucher and authenticates it.
func (v *Voucher) SetHeader() {
	v.V.OVHeaderTag = Marshal(v.H)
	h, err := fs.GenerateFdoHmac(v.V.OVHeaderTag, v.HmacAlg, v.Secret)
	must(err)
	v.V.OVHeaderHMac = h
}

// Prev is what the hash in entry i covers.
func (v *Voucher) Prev(i int) []byte {
	if i == 0 {
		return cat(v.V.OVHeaderTag, Marshal(v.V.OVHeaderHMac))
	}
	return Marshal(v.V.OVEntryArray[i-1])
}

// Entry is an entry naming pub, with the given previous hash, signed with priv.
func (v *Voucher) Entry(prev fs.HashOrHmac, pub fs.FdoPublicKey, priv any) fs.CoseSignature {
	p := fs.OVEntryPayload{OVEHashPrevEntry: prev, OVEHashHdrInfo: Hash(cat(v.H.OVGuid[:], []byte(v.H.OVDeviceInfo)), v.HashAlg), OVEPubKey: pub}
	s, err := fs.GenerateCoseSignature(Marshal(p), fs.ProtectedHeader{}, fs.UnprotectedHeader{}, priv, v.Sg)
	must(err)
	return *s
}

// Extend adds a correct entry naming a new owner.
func (v *Voucher) Extend() {
	k, p := Key(v.Sg)
	i := len(v.V.OVEntryArray)
	e := v.Entry(Hash(v.Prev(i), v.HashAlg), p, v.Owner[i])
	v.V.OVEntryArray = append(v.V.OVEntryArray[:i:i], e)
	v.Owner = append(v.Owner[:i+1:i+1], k)
	v.OwnerPub = append(v.OwnerPub[:i+1:i+1], p)
}

// DBEntry is the voucher as the onboarding server stores it.
func (v *Voucher) DBEntry() fs.VoucherDBEntry {
	b, err := fs.MarshalPrivateKey(v.OwnerKey(), v.Sg)
	must(err)
	return fs.VoucherDBEntry{Voucher: v.V, SgType: v.Sg, PrivateKeyX509: b}
}
