package main

import (
	"bytes"
	"crypto"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"go/types"
	"hash"
	"math/big"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ideal cryptography: hashes and MACs are injective functions with fresh outputs, block
// ciphers are permutations per key, AEADs and signatures are unforgeable. Concrete
// arguments always take the real function.

type signRec struct {
	pub    string // identity of the key
	digest []Value
	r, s   []byte
	sig    []byte // rsa
	alg    string
}
type sealRec struct {
	alg                 string
	key, nonce, aad, pt []Value
	ct                  []Value
}

type curveObj struct{ c elliptic.Curve }

func allConc(vs ...[]Value) bool {
	for _, v := range vs {
		for _, x := range v {
			if _, ok := x.(C); !ok {
				return false
			}
		}
	}
	return true
}
func mustConc(v []Value, what string) []byte {
	b, ok := concBytes(v)
	if !ok {
		panic(unsup("symbolic bytes in %s", what))
	}
	return b
}
func sameVals(a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func cellsOf(b []byte) []Value { return []Value(bytesToSlice(b)) }

// app applies an uninterpreted function to byte strings.
func (m *Machine) app(kind string, in [][]Value, outLen int, inj bool, real func(in [][]byte) []byte) []Value {
	conc := allConc(in...)
	p := m.path
	if p == nil {
		if !conc {
			panic(unsup("symbolic %s during init", kind))
		}
		cb := make([][]byte, len(in))
		for i := range in {
			cb[i], _ = concBytes(in[i])
		}
		return cellsOf(real(cb))
	}
	for _, a := range p.apps[kind] {
		same := true
		for i := range in {
			if !sameVals(a.in[i], in[i]) {
				same = false
				break
			}
		}
		if same {
			return a.out
		}
	}
	cp := make([][]Value, len(in))
	for i := range in {
		cp[i] = append([]Value{}, in[i]...)
	}
	a := &cryptoApp{kind: kind, in: cp, real: real}
	cb := make([][]byte, len(in))
	for i := range in {
		cb[i] = m.evalBytes(in[i])
	}
	def := real(cb)
	if conc {
		a.out = cellsOf(def)
	} else {
		a.out = make([]Value, outLen)
		for i := range a.out {
			a.out[i] = m.freshVar(kind, 8, uint64(def[i]))
		}
	}
	for _, b := range p.apps[kind] {
		if conc && allConc(b.in...) {
			continue
		}
		var eqIn Value = true
		for i := range in {
			eqIn = m.andV(eqIn, m.bytesEq(a.in[i], b.in[i]))
			if eqIn == false {
				break
			}
		}
		if eqIn == false && !inj {
			continue
		}
		eqOut := m.bytesEq(a.out, b.out)
		if inj {
			m.assumeV(V(m.bank.Eq(m.BT(eqIn), m.BT(eqOut))))
			if strings.HasPrefix(kind, "hmac-") && m.path.opts["short-digests"] != 0 { // no collision even of the first 16 bytes
				m.assumeV(V(m.bank.Eq(m.BT(eqIn), m.BT(m.bytesEq(a.out[:16], b.out[:16])))))
			}
		} else {
			m.assumeV(V(m.bank.Or(m.bank.Not(m.BT(eqIn)), m.BT(eqOut))))
		}
	}
	p.apps[kind] = append(p.apps[kind], a)
	if !conc {
		p.allApps = append(p.allApps, a)
	}
	return a.out
}

type hashAlg struct {
	name        string
	size, block int
	nf          func() hash.Hash
}

var hSha256 = &hashAlg{"sha256", 32, 64, sha256.New}
var hSha384 = &hashAlg{"sha384", 48, 128, sha512.New384}
var hSha512 = &hashAlg{"sha512", 64, 128, sha512.New}

func (m *Machine) hash(h *hashAlg, data []Value) []Value {
	return m.app(h.name, [][]Value{data}, h.size, true, func(in [][]byte) []byte {
		x := h.nf()
		x.Write(in[0])
		return x.Sum(nil)
	})
}
func (m *Machine) hmac(h *hashAlg, key, data []Value) []Value {
	return m.app("hmac-"+h.name, [][]Value{key, data}, h.size, true, func(in [][]byte) []byte {
		x := hmac.New(h.nf, in[0])
		x.Write(in[1])
		return x.Sum(nil)
	})
}

type hashObj struct {
	alg *hashAlg
	key []Value
	mac bool
	buf []Value
}

func (h *hashObj) Call(m *Machine, fr *frame, name string, a []Value) Value {
	switch name {
	case "Write":
		h.buf = append(h.buf[:len(h.buf):len(h.buf)], a[0].(Slice)...)
		return Tuple{C(len(a[0].(Slice))), Iface{}}
	case "Sum":
		var o []Value
		if h.mac {
			o = m.hmac(h.alg, h.key, h.buf)
		} else {
			o = m.hash(h.alg, h.buf)
		}
		r := append(append(Slice{}, a[0].(Slice)...), o...)
		return r
	case "Reset":
		h.buf = nil
		return nil
	case "Size":
		return C(h.alg.size)
	case "BlockSize":
		return C(h.alg.block)
	}
	panic(unsup("hash.%s", name))
}

func (m *Machine) nativeIface(v any) Value { return Iface{m.eng.placeholder, &NativeV{v}} }

// ---------- AES
type blockObj struct{ key []Value }

func (b *blockObj) enc(m *Machine, src []Value) []Value {
	return m.appPerm("aes", b.key, src)
}

// appPerm is the block permutation.
func (m *Machine) appPerm(kind string, key, src []Value) []Value {
	real := func(in [][]byte) []byte {
		c, err := aes.NewCipher(in[0])
		if err != nil {
			return make([]byte, 16)
		}
		o := make([]byte, 16)
		c.Encrypt(o, in[1])
		return o
	}
	p := m.path
	k := fmt.Sprintf("%s%d", kind, len(key)*8)
	if p == nil || allConc(key, src) && len(p.apps[k]) == 0 {
		if allConc(key, src) {
			kb, _ := concBytes(key)
			sb, _ := concBytes(src)
			return cellsOf(real([][]byte{kb, sb}))
		}
	}
	old := len(p.apps[k])
	out := m.app(k, [][]Value{key, src}, 16, false, real)
	if len(p.apps[k]) > old { // injectivity per key
		for _, b := range p.apps[k][:old] {
			if allConc(key, src, b.in[0], b.in[1]) {
				continue
			}
			ek := m.BT(m.bytesEq(key, b.in[0]))
			es := m.BT(m.bytesEq(src, b.in[1]))
			eo := m.BT(m.bytesEq(out, b.out))
			m.assumeV(V(m.bank.Or(m.bank.Not(m.bank.And(ek, eo)), es)))
		}
	}
	return out
}

func goPanic(m *Machine, fr *frame, msg string) targetPanic {
	return targetPanic{v: Iface{types.Typ[types.String], msg}, msg: msg, pos: m.posOf(fr)}
}

func (b *blockObj) Call(m *Machine, fr *frame, name string, a []Value) Value {
	switch name {
	case "BlockSize":
		return C(16)
	case "Encrypt":
		d, s := a[0].(Slice), a[1].(Slice)
		if len(s) < 16 {
			panic(goPanic(m, fr, "crypto/aes: input not full block"))
		}
		if len(d) < 16 {
			panic(goPanic(m, fr, "crypto/aes: output not full block"))
		}
		o := b.enc(m, append([]Value{}, s[:16]...))
		for i := 0; i < 16; i++ {
			m.setCell(&d[i], o[i])
		}
		return nil
	}
	panic(unsup("cipher.Block.%s", name))
}

type ctrObj struct {
	b    *blockObj
	iv   []Value
	next int
	ks   []Value
	used int
}

func (c *ctrObj) Call(m *Machine, fr *frame, name string, a []Value) Value {
	if name != "XORKeyStream" {
		panic(unsup("cipher.Stream.%s", name))
	}
	d, s := a[0].(Slice), a[1].(Slice)
	if len(d) < len(s) {
		panic(goPanic(m, fr, "crypto/cipher: output smaller than input"))
	}
	out := make([]Value, len(s))
	for i := range s {
		if c.used == len(c.ks) {
			c.ks = c.b.enc(m, m.addCounter(c.iv, c.next))
			c.next++
			c.used = 0
		}
		out[i] = V(m.bank.Bin(OXor, m.T(s[i], 8), m.T(c.ks[c.used], 8)))
		c.used++
	}
	for i := range out {
		m.setCell(&d[i], out[i])
	}
	return nil
}

// addCounter adds n to a 128-bit big endian counter.
func (m *Machine) addCounter(iv []Value, n int) []Value {
	if n == 0 {
		return iv
	}
	if b, ok := concBytes(iv); ok {
		x := new(big.Int).SetBytes(b)
		x.Add(x, big.NewInt(int64(n)))
		o := make([]byte, 17)
		x.FillBytes(o)
		return cellsOf(o[1:])
	}
	r := make([]Value, 16)
	carry := m.bank.Const(uint64(n), 9)
	for i := 15; i >= 0; i-- {
		s := m.bank.Bin(OAdd, m.bank.ZExt(m.T(iv[i], 8), 9), m.bank.Bin(OAnd, carry, m.bank.Const(0xff, 9)))
		r[i] = V(m.bank.Extract(s, 0, 8))
		carry = m.bank.ZExt(m.bank.Extract(s, 8, 1), 9)
	}
	return r
}

// ---------- AEAD
type aeadObj struct {
	alg            string
	key            []Value
	nonce, tag     int
	native         func(key []byte) (cipher.AEAD, error)
	nonceMsg       string
	openNonceErr   bool
	sealPanicAsErr bool
}

func (g *aeadObj) Call(m *Machine, fr *frame, name string, a []Value) Value {
	switch name {
	case "NonceSize":
		return C(g.nonce)
	case "Overhead":
		return C(g.tag)
	case "MaxLength":
		return C(1<<16 - 1)
	case "Seal":
		dst, nonce, pt, aad := a[0].(Slice), a[1].(Slice), a[2].(Slice), a[3].(Slice)
		if len(nonce) != g.nonce {
			panic(goPanic(m, fr, g.nonceMsg))
		}
		ct := m.seal(g, nonce, pt, aad)
		return append(append(Slice{}, dst...), ct...)
	case "Open":
		dst, nonce, ct, aad := a[0].(Slice), a[1].(Slice), a[2].(Slice), a[3].(Slice)
		if len(nonce) != g.nonce && !g.openNonceErr {
			panic(goPanic(m, fr, g.nonceMsg))
		}
		fail := Tuple{Slice(nil), m.errorStr("cipher: message authentication failed")}
		if len(ct) < g.tag || len(nonce) != g.nonce {
			return fail
		}
		for _, r := range m.path.seals {
			if r.alg != g.alg {
				continue
			}
			c := m.andV(m.bytesEq(r.ct, ct), m.bytesEq(r.nonce, nonce))
			c = m.andV(c, m.andV(m.bytesEq(r.aad, aad), m.bytesEq(r.key, g.key)))
			if m.branchV(c) {
				out := append(append(Slice{}, dst...), r.pt...)
				if len(dst) == 0 && len(r.pt) == 0 {
					return Tuple{Slice(nil), Iface{}}
				}
				return Tuple{out, Iface{}}
			}
		}
		if allConc(g.key, nonce, ct, aad) {
			kb, _ := concBytes(g.key)
			x, err := g.native(kb)
			if err != nil {
				panic(unsup("aead: %s", err))
			}
			nb, _ := concBytes(nonce)
			cb, _ := concBytes(ct)
			ab, _ := concBytes(aad)
			pt, err := x.Open(nil, nb, cb, ab)
			if err != nil {
				return fail
			}
			return Tuple{append(append(Slice{}, dst...), bytesToSlice(pt)...), Iface{}}
		}
		return fail
	}
	panic(unsup("cipher.AEAD.%s", name))
}

func (m *Machine) seal(g *aeadObj, nonce, pt, aad []Value) []Value {
	real := func(in [][]byte) []byte {
		x, err := g.native(in[0])
		if err != nil {
			return make([]byte, len(pt)+g.tag)
		}
		return x.Seal(nil, in[1], in[2], in[3])
	}
	ct := m.app(g.alg, [][]Value{g.key, nonce, pt, aad}, len(pt)+g.tag, true, real)
	for _, r := range m.path.seals {
		if r.alg == g.alg && sameVals(r.ct, ct) {
			return ct
		}
	}
	m.path.seals = append(m.path.seals, &sealRec{g.alg, g.key, append([]Value{}, nonce...), append([]Value{}, aad...), append([]Value{}, pt...), ct})
	return ct
}

// ---------- randomness
type randReaderObj struct{}

func (r *randReaderObj) Call(m *Machine, fr *frame, name string, a []Value) Value {
	if name != "Read" {
		panic(unsup("rand.Reader.%s", name))
	}
	m.randFill(a[0].(Slice))
	return Tuple{C(len(a[0].(Slice))), Iface{}}
}

func (m *Machine) randFill(b Slice) {
	if m.path == nil {
		panic(unsup("randomness during init"))
	}
	k := m.path.counters["rand"]
	m.path.counters["rand"]++
	var seed [8]byte
	binary.BigEndian.PutUint64(seed[:], uint64(k)+uint64(m.eng.seed)<<32)
	var def []byte
	for i := 0; len(def) < len(b); i++ {
		h := sha256.Sum256(append(seed[:], byte(i)))
		def = append(def, h[:]...)
	}
	rec := make([]Value, len(b))
	conc := m.path.opts["concrete-rand"] != 0
	if n := m.path.opts["short-rands"]; n > 0 && int64(len(b)) <= int64(n) { // short strings stay free
		conc = false
	}
	for i := range b {
		if conc {
			rec[i] = C(def[i])
		} else {
			rec[i] = m.freshVar("rand", 8, uint64(def[i]))
		}
		m.setCell(&b[i], rec[i])
	}
	if len(rec) > 0 { // nothing is read otherwise
		m.path.rands = append(m.path.rands, rec)
	}
}

func (m *Machine) randInt(fr *frame, max *big.Int) Value {
	if max.Sign() <= 0 {
		panic(goPanic(m, fr, "crypto/rand: argument to Int is <= 0"))
	}
	n := new(big.Int).Sub(max, big.NewInt(1))
	bl := n.BitLen()
	if bl == 0 {
		return m.bigToPtr(new(big.Int))
	}
	k := (bl + 7) / 8
	if bl <= 64 {
		w := uint8(8 * k)
		def := uint64(m.path.counters["randint"]*7+3) % max.Uint64()
		m.path.counters["randint"]++
		var v *Term
		free := m.path.opts["free-ints"]
		if m.path.opts["concrete-rand"] >= 2 || free > 0 && int64(m.path.counters["randint"]) > free {
			h := sha256.Sum256([]byte(fmt.Sprint(m.eng.seed, m.path.counters["randint"])))
			v = m.bank.Const(binary.BigEndian.Uint64(h[:])%(n.Uint64()+1), w)
		} else if m.path.opts["split-ints"] != 0 && n.Uint64() < 64 {
			v = m.bank.Const(uint64(m.choose(int(n.Uint64())+1)), w)
		} else {
			v = m.freshVar(fmt.Sprintf("randint%d", w), w, def)
			m.assumeV(V(m.bank.Bin(OULE, v, m.bank.Const(n.Uint64(), w))))
		}
		rec := make([]Value, k)
		for i := 0; i < k; i++ {
			rec[i] = V(m.bank.Extract(v, uint8(8*(k-1-i)), 8))
		}
		m.path.rands = append(m.path.rands, rec)
		p := new(Value)
		*p = Struct{false, Slice{V(m.bank.ZExt(v, 64))}}
		return p
	}
	// large range: concrete representatives
	shape := 0
	if m.path.opts["key-shapes"] != 0 {
		shape = m.choose(3)
	}
	c := m.path.counters["bigrand"]
	m.path.counters["bigrand"]++
	b := make([]byte, k)
	for i := range b {
		h := sha256.Sum256([]byte{byte(c), byte(i), byte(shape)})
		b[i] = h[0]
	}
	b[0] &= byte(1<<uint(bl%8)) - 1
	if bl%8 == 0 {
		b[0] = 0x3c
	}
	switch shape {
	case 1:
		b[0], b[1] = 0, 0
	case 2:
		for i := range b[:k-1] {
			b[i] = 0
		}
		b[k-1] = 2
	}
	v := new(big.Int).SetBytes(b)
	if v.Cmp(max) >= 0 {
		v.Sub(max, big.NewInt(7))
		v.FillBytes(b)
	}
	m.path.rands = append(m.path.rands, cellsOf(b))
	return m.bigToPtr(v)
}

// ---------- keys
var keyPoolMu sync.Mutex
var ecPool = map[string]*ecdsa.PrivateKey{}

// ecKey returns the i-th fixed key of a curve; shape 1..3 have a leading zero byte in X, Y
// or D.
func ecKey(c elliptic.Curve, i, shape int) *ecdsa.PrivateKey {
	keyPoolMu.Lock()
	defer keyPoolMu.Unlock()
	id := fmt.Sprintf("%s/%d/%d", c.Params().Name, i, shape)
	if k, ok := ecPool[id]; ok {
		return k
	}
	size := (c.Params().BitSize + 7) / 8
	for n := 0; ; n++ {
		var d []byte
		for j := 0; len(d) < size; j++ {
			h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d/%d", id, n, j)))
			d = append(d, h[:]...)
		}
		d = d[:size]
		D := new(big.Int).SetBytes(d)
		if shape == 3 {
			d[0] = 0
			D.SetBytes(d)
		}
		if D.Sign() == 0 || D.Cmp(c.Params().N) >= 0 {
			continue
		}
		x, y := c.ScalarBaseMult(D.Bytes())
		lz := func(v *big.Int) bool { return len(v.Bytes()) < size }
		if shape == 0 && (lz(x) || lz(y) || lz(D)) || shape == 1 && (!lz(x) || lz(y)) || shape == 2 && (!lz(y) || lz(x)) {
			continue
		}
		k := &ecdsa.PrivateKey{PublicKey: ecdsa.PublicKey{Curve: c, X: x, Y: y}, D: D}
		ecPool[id] = k
		return k
	}
}

var rsaPool = map[string]*rsa.PrivateKey{}

func rsaKey(bits, i int) *rsa.PrivateKey {
	keyPoolMu.Lock()
	defer keyPoolMu.Unlock()
	l := rsaKeys[bits]
	if len(l) == 0 {
		panic(unsup("rsa key size %d", bits))
	}
	id := fmt.Sprintf("%d/%d", bits, i%len(l))
	if k, ok := rsaPool[id]; ok {
		return k
	}
	der, err := hex.DecodeString(l[i%len(l)])
	if err != nil {
		panic(err)
	}
	k, err := x509.ParsePKCS1PrivateKey(der)
	if err != nil {
		panic(err)
	}
	rsaPool[id] = k
	return k
}

func (m *Machine) ecPubOf(v Value) *ecdsa.PublicKey {
	p, _ := v.(*Value)
	if p == nil {
		return nil
	}
	s := (*p).(Struct)
	return m.ecPubOfStruct(s)
}
func (m *Machine) ecPubOfStruct(s Struct) *ecdsa.PublicKey {
	k := &ecdsa.PublicKey{}
	if i := s[0].(Iface); i.t != nil {
		k.Curve = m.curveOf(i)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(errSymbolic); ok {
					panic(unsup("symbolic EC point"))
				}
				panic(r)
			}
		}()
		k.X, k.Y = m.bigOf(s[1]), m.bigOf(s[2])
	}()
	return k
}
func ecID(k *ecdsa.PublicKey) string {
	return k.Curve.Params().Name + ":" + k.X.Text(16) + ":" + k.Y.Text(16)
}
func rsaID(k *rsa.PublicKey) string { return "rsa:" + k.N.Text(16) }

func (m *Machine) structField(t types.Type, s Struct, name string) Value {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return s[i]
		}
	}
	panic(unsup("no field %s in %s", name, t))
}

func (m *Machine) ecPubVal(k *ecdsa.PublicKey) Struct {
	return Struct{m.curveIface(k.Curve), m.bigToPtr(k.X), m.bigToPtr(k.Y)}
}
func (m *Machine) ecPubPtr(k *ecdsa.PublicKey) Value {
	p := new(Value)
	*p = m.ecPubVal(k)
	return p
}
func (m *Machine) ecPrivPtr(k *ecdsa.PrivateKey) Value {
	p := new(Value)
	t := m.eng.typeByName("crypto/ecdsa", "PrivateKey")
	s := m.zero(t).(Struct)
	s[0] = m.ecPubVal(&k.PublicKey)
	s[1] = m.bigToPtr(k.D)
	*p = s
	return p
}
func (m *Machine) rsaPubVal(k *rsa.PublicKey) Struct { return Struct{m.bigToPtr(k.N), C(uint64(k.E))} }
func (m *Machine) rsaPubPtr(k *rsa.PublicKey) Value {
	p := new(Value)
	*p = m.rsaPubVal(k)
	return p
}
func (m *Machine) rsaPrivPtr(k *rsa.PrivateKey) Value {
	p := new(Value)
	t := m.eng.typeByName("crypto/rsa", "PrivateKey")
	s := m.zero(t).(Struct)
	s[0] = m.rsaPubVal(&k.PublicKey)
	s[1] = m.bigToPtr(k.D)
	pr := make(Slice, len(k.Primes))
	for i, x := range k.Primes {
		pr[i] = m.bigToPtr(x)
	}
	s[2] = pr
	*p = s
	return p
}
func (m *Machine) rsaPubOf(v Value) *rsa.PublicKey {
	p, _ := v.(*Value)
	if p == nil {
		return nil
	}
	s := (*p).(Struct)
	return &rsa.PublicKey{N: m.bigOf(s[0]), E: int(conc(s[1]))}
}
func (m *Machine) rsaPrivOf(v Value) *rsa.PrivateKey {
	p, _ := v.(*Value)
	if p == nil {
		return nil
	}
	s := (*p).(Struct)
	ps := s[0].(Struct)
	n := m.bigOf(ps[0])
	id := "rsa:" + n.Text(16)
	keyPoolMu.Lock()
	k := rsaByID[id]
	keyPoolMu.Unlock()
	if k != nil {
		return k
	}
	k = &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: n, E: int(conc(ps[1]))}, D: m.bigOf(s[1])}
	for _, x := range s[2].(Slice) {
		k.Primes = append(k.Primes, m.bigOf(x))
	}
	k.Precompute()
	keyPoolMu.Lock()
	rsaByID[id] = k
	keyPoolMu.Unlock()
	return k
}

var rsaByID = map[string]*rsa.PrivateKey{}

func (m *Machine) pubIface(k any) Value {
	switch x := k.(type) {
	case *ecdsa.PublicKey:
		return Iface{types.NewPointer(m.eng.typeByName("crypto/ecdsa", "PublicKey")), m.ecPubPtr(x)}
	case *rsa.PublicKey:
		return Iface{types.NewPointer(m.eng.typeByName("crypto/rsa", "PublicKey")), m.rsaPubPtr(x)}
	case *ecdsa.PrivateKey:
		return Iface{types.NewPointer(m.eng.typeByName("crypto/ecdsa", "PrivateKey")), m.ecPrivPtr(x)}
	case *rsa.PrivateKey:
		return Iface{types.NewPointer(m.eng.typeByName("crypto/rsa", "PrivateKey")), m.rsaPrivPtr(x)}
	}
	panic(unsup("key type %T", k))
}

// keyOf converts an interpreted key held in an interface to a native one (nil if unknown).
func (m *Machine) keyOf(i Iface) any {
	if i.t == nil {
		return nil
	}
	switch i.t.String() {
	case "*crypto/ecdsa.PublicKey":
		return m.ecPubOf(i.v)
	case "*crypto/rsa.PublicKey":
		return m.rsaPubOf(i.v)
	case "*crypto/ecdsa.PrivateKey":
		s := (*(i.v.(*Value))).(Struct)
		return &ecdsa.PrivateKey{PublicKey: *m.ecPubOfStruct(s[0].(Struct)), D: m.bigOf(s[1])}
	case "*crypto/rsa.PrivateKey":
		return m.rsaPrivOf(i.v)
	}
	return nil
}

// memo runs a native function once per argument string in the whole process, so that
// re-executed paths see the same result.
var memoTab sync.Map

func memo[T any](key string, f func() T) T {
	if v, ok := memoTab.Load(key); ok {
		return v.(T)
	}
	v, _ := memoTab.LoadOrStore(key, f())
	return v.(T)
}

type ecSig struct {
	r, s *big.Int
	err  error
}

func (m *Machine) bigBytes(v Value, size int) []Value {
	// bytes of a non-negative big.Int, possibly symbolic, left padded to size (or longer)
	p, _ := v.(*Value)
	if p == nil {
		return nil
	}
	s := (*p).(Struct)
	nat := s[1].(Slice)
	n := len(nat) * 8
	out := make([]Value, n)
	for i, w := range nat {
		t := m.T(w, 64)
		for j := 0; j < 8; j++ {
			out[n-1-i*8-j] = V(m.bank.Extract(t, uint8(8*j), 8))
		}
	}
	for len(out) > size && out[0] == Value(C(0)) {
		out = out[1:]
	}
	for len(out) < size {
		out = append([]Value{C(0)}, out...)
	}
	return out
}

var tagCtr = "vx-signature"

func (m *Machine) sigTag(n int) []byte {
	k := m.path.counters["sig"]
	m.path.counters["sig"]++
	var out []byte
	for i := 0; len(out) < n; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d/%d", tagCtr, k, i)))
		out = append(out, h[:]...)
	}
	out = out[:n]
	out[0] = 0x40 | out[0]&0x3f
	return out
}

type certRes struct {
	c   *x509.Certificate
	err error
}
type anyRes struct {
	k   any
	err error
}
type bytesRes struct {
	b   []byte
	err error
}

type poolObj struct{ raw [][]byte }

var nativeTypes = map[string]reflect.Type{
	"crypto/ecdsa.PublicKey": reflect.TypeOf(ecdsa.PublicKey{}), "crypto/ecdsa.PrivateKey": reflect.TypeOf(ecdsa.PrivateKey{}),
	"crypto/rsa.PublicKey": reflect.TypeOf(rsa.PublicKey{}), "crypto/rsa.PrivateKey": reflect.TypeOf(rsa.PrivateKey{}),
	"math/big.Int": tBigInt, "time.Time": tTime, "crypto/x509.Certificate": reflect.TypeOf(x509.Certificate{}), "crypto/x509/pkix.Name": reflect.TypeOf(pkix.Name{}),
	"net/url.URL": reflect.TypeOf(url.URL{}),
}

func (c *curveObj) Call(m *Machine, fr *frame, name string, a []Value) Value {
	size := (c.c.Params().BitSize + 7) / 8
	bigs := func(v Value) (*big.Int, []Value) {
		b := m.bigBytes(v, size)
		if b == nil {
			panic(goPanic(m, fr, "runtime error: invalid memory address or nil pointer dereference"))
		}
		if cb, ok := concBytes(b); ok {
			return new(big.Int).SetBytes(cb), nil
		}
		return nil, b
	}
	// symbolic points: they are either one of the known points or off the curve
	point := func(x, y Value) (*big.Int, *big.Int, bool) {
		bx, sx := bigs(x)
		by, sy := bigs(y)
		if bx != nil && by != nil {
			return bx, by, true
		}
		if bx != nil {
			sx = cellsOf(bx.FillBytes(make([]byte, size)))
		}
		if by != nil {
			sy = cellsOf(by.FillBytes(make([]byte, size)))
		}
		keyPoolMu.Lock()
		var ks []*ecdsa.PrivateKey
		for i := 0; i < 4; i++ {
			for sh := 0; sh < 4; sh++ {
				if k, ok := ecPool[fmt.Sprintf("%s/%d/%d", c.c.Params().Name, i, sh)]; ok {
					ks = append(ks, k)
				}
			}
		}
		keyPoolMu.Unlock()
		if len(ks) > 3 {
			ks = ks[:3]
		}
		for _, k := range ks {
			e := m.andV(m.bytesEq(sx, cellsOf(k.X.FillBytes(make([]byte, len(sx))))), m.bytesEq(sy, cellsOf(k.Y.FillBytes(make([]byte, len(sy))))))
			if m.branchV(e) {
				return k.X, k.Y, true
			}
		}
		m.note("symbolic curve point: treated as off the curve unless it equals a known key")
		return nil, nil, false
	}
	switch name {
	case "Params":
		key := "params:" + c.c.Params().Name
		if v, ok := m.local[key]; ok {
			return v.(Value)
		}
		p := new(Value)
		pr := c.c.Params()
		*p = Struct{m.bigToPtr(pr.P), m.bigToPtr(pr.N), m.bigToPtr(pr.B), m.bigToPtr(pr.Gx), m.bigToPtr(pr.Gy), C(uint64(pr.BitSize)), pr.Name}
		m.local[key] = Value(p)
		return p
	case "IsOnCurve":
		x, y, ok := point(a[0], a[1])
		if !ok {
			return false
		}
		return c.c.IsOnCurve(x, y)
	case "ScalarBaseMult":
		x, y := c.c.ScalarBaseMult(mustConc(a[0].(Slice), "ScalarBaseMult"))
		return Tuple{m.bigToPtr(x), m.bigToPtr(y)}
	case "ScalarMult":
		x, y, ok := point(a[0], a[1])
		if !ok || !c.c.IsOnCurve(x, y) {
			panic(goPanic(m, fr, "crypto/elliptic: attempted operation on invalid point"))
		}
		rx, ry := c.c.ScalarMult(x, y, mustConc(a[2].(Slice), "ScalarMult scalar"))
		return Tuple{m.bigToPtr(rx), m.bigToPtr(ry)}
	}
	panic(unsup("elliptic.Curve.%s", name))
}

func (m *Machine) sigMatch(recs []*signRec, pub, alg string, digest []Value, sig func(r *signRec) Value) Value {
	var acc Value = false
	for _, r := range recs {
		if r.pub != pub || r.alg != alg {
			continue
		}
		c := m.andV(sig(r), m.bytesEq(r.digest, digest))
		acc = V(m.bank.Or(m.BT(acc), m.BT(c)))
	}
	return acc
}

func initCrypto() {
	rng := func(m *Machine, fr *frame, a []Value) Value {
		m.randFill(a[0].(Slice))
		return Tuple{C(len(a[0].(Slice))), Iface{}}
	}
	intrinsics["crypto/rand.Read"] = rng
	intrinsics["crypto/rand.Int"] = func(m *Machine, fr *frame, a []Value) Value {
		var mx *big.Int
		p, _ := a[1].(*Value)
		if p == nil {
			panic(m.rtPanicAt(fr, "invalid memory address or nil pointer dereference"))
		}
		s := (*p).(Struct)
		nat := s[1].(Slice)
		// concretise a symbolic bound
		ws := make([]big.Word, len(nat))
		for i, w := range nat {
			ws[i] = big.Word(m.concInt(w, 64, false))
		}
		mx = new(big.Int).SetBits(ws)
		if m.branchV(s[0]) {
			mx.Neg(mx)
		}
		return Tuple{m.randInt(fr, mx), Iface{}}
	}
	newHash := func(h *hashAlg) Intrinsic {
		return func(m *Machine, fr *frame, a []Value) Value { return m.nativeIface(&hashObj{alg: h}) }
	}
	sum := func(h *hashAlg) Intrinsic {
		return func(m *Machine, fr *frame, a []Value) Value {
			return Array(append([]Value{}, m.hash(h, a[0].(Slice))...))
		}
	}
	intrinsics["crypto/sha256.New"] = newHash(hSha256)
	intrinsics["crypto/sha512.New384"] = newHash(hSha384)
	intrinsics["crypto/sha512.New"] = newHash(hSha512)
	intrinsics["crypto/sha256.Sum256"] = sum(hSha256)
	intrinsics["crypto/sha512.Sum384"] = sum(hSha384)
	intrinsics["crypto/sha512.Sum512"] = sum(hSha512)
	intrinsics["crypto/hmac.New"] = func(m *Machine, fr *frame, a []Value) Value {
		h := m.call(fr, a[0], nil).(Iface)
		o, ok := h.v.(*NativeV).v.(*hashObj)
		if !ok {
			panic(unsup("hmac of unknown hash"))
		}
		return m.nativeIface(&hashObj{alg: o.alg, mac: true, key: append([]Value{}, a[1].(Slice)...)})
	}
	intrinsics["golang.org/x/crypto/scrypt.Key"] = func(m *Machine, fr *frame, a []Value) Value {
		n := int(m.concIdx(a[5]))
		out := m.app("scrypt", [][]Value{a[0].(Slice), a[1].(Slice)}, n, true, func(in [][]byte) []byte {
			mac := hmac.New(sha256.New, in[1])
			mac.Write(in[0])
			o := mac.Sum(nil)
			for len(o) < n {
				o = append(o, o...)
			}
			return o[:n]
		})
		return Tuple{Slice(append([]Value{}, out...)), Iface{}}
	}
	intrinsics["crypto/aes.NewCipher"] = func(m *Machine, fr *frame, a []Value) Value {
		k := a[0].(Slice)
		switch len(k) {
		case 16, 24, 32:
			return Tuple{m.nativeIface(&blockObj{append([]Value{}, k...)}), Iface{}}
		}
		return Tuple{Iface{}, m.errorStr(fmt.Sprintf("crypto/aes: invalid key size %d", len(k)))}
	}
	blockOf := func(v Value) *blockObj {
		if i, ok := v.(Iface); ok && i.t != nil {
			if nv, ok := i.v.(*NativeV); ok {
				if b, ok := nv.v.(*blockObj); ok {
					return b
				}
			}
		}
		return nil
	}
	intrinsics["crypto/cipher.NewCTR"] = func(m *Machine, fr *frame, a []Value) Value {
		b := blockOf(a[0])
		if b == nil {
			return fallThrough{}
		}
		iv := a[1].(Slice)
		if len(iv) != 16 {
			panic(goPanic(m, fr, "cipher.NewCTR: IV length must equal block size"))
		}
		return m.nativeIface(&ctrObj{b: b, iv: append([]Value{}, iv...)})
	}
	intrinsics["crypto/cipher.NewGCM"] = func(m *Machine, fr *frame, a []Value) Value {
		b := blockOf(a[0])
		if b == nil {
			return fallThrough{}
		}
		return Tuple{m.nativeIface(&aeadObj{alg: fmt.Sprintf("gcm%d", len(b.key)*8), key: b.key, nonce: 12, tag: 16, nonceMsg: "crypto/cipher: incorrect nonce length given to GCM",
			native: func(k []byte) (cipher.AEAD, error) {
				c, err := aes.NewCipher(k)
				if err != nil {
					return nil, err
				}
				return cipher.NewGCM(c)
			}}), Iface{}}
	}
	intrinsics["github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/ccm.NewCCM"] = func(m *Machine, fr *frame, a []Value) Value {
		b := blockOf(a[0])
		if b == nil || m.path.opts["real-ccm"] != 0 {
			return fallThrough{}
		}
		tag, nonce := int(m.concIdx(a[1])), int(m.concIdx(a[2]))
		if tag < 4 || tag > 16 || tag%2 != 0 || nonce < 7 || nonce > 13 {
			return fallThrough{}
		}
		return Tuple{m.nativeIface(&aeadObj{alg: fmt.Sprintf("ccm%d-%d-%d", len(b.key)*8, tag, nonce), key: b.key, nonce: nonce, tag: tag, nonceMsg: "ccm: invalid nonce size", openNonceErr: true,
			native: func(k []byte) (cipher.AEAD, error) {
				c, err := aes.NewCipher(k)
				if err != nil {
					return nil, err
				}
				return &refCCM{c, tag, nonce}, nil
			}}), Iface{}}
	}
	// curves
	for n, c := range map[string]elliptic.Curve{"P256": elliptic.P256(), "P384": elliptic.P384(), "P521": elliptic.P521(), "P224": elliptic.P224()} {
		c := c
		intrinsics["crypto/elliptic."+n] = func(m *Machine, fr *frame, a []Value) Value { return m.curveIface(c) }
	}
	// key generation
	intrinsics["crypto/ecdsa.GenerateKey"] = func(m *Machine, fr *frame, a []Value) Value {
		c := m.curveOf(a[0].(Iface))
		shape := 0
		if m.path.opts["key-shapes"] != 0 {
			shape = m.choose(4)
		}
		ck := "eckey" + c.Params().Name
		i := m.path.counters[ck]
		m.path.counters[ck]++
		k := ecKey(c, i, shape)
		m.path.eckeys = append(m.path.eckeys, hex.EncodeToString(k.D.FillBytes(make([]byte, (c.Params().N.BitLen()+7)/8))))
		return Tuple{m.ecPrivPtr(k), Iface{}}
	}
	intrinsics["crypto/rsa.GenerateKey"] = func(m *Machine, fr *frame, a []Value) Value {
		bits := int(m.concIdx(a[1]))
		ck := fmt.Sprintf("rsakey%d", bits)
		i := m.path.counters[ck]
		m.path.counters[ck]++
		k := rsaKey(bits, i)
		for _, f := range k.Primes {
			m.path.eckeys = append(m.path.eckeys, hex.EncodeToString(f.FillBytes(make([]byte, (bits/2+7)/8))))
		}
		return Tuple{m.rsaPrivPtr(k), Iface{}}
	}
	// signatures
	intrinsics["crypto/ecdsa.Sign"] = func(m *Machine, fr *frame, a []Value) Value {
		priv := m.keyOf(Iface{types.NewPointer(m.eng.typeByName("crypto/ecdsa", "PrivateKey")), a[1]}).(*ecdsa.PrivateKey)
		dg := append([]Value{}, a[2].(Slice)...)
		id := ecID(&priv.PublicKey)
		size := (priv.Curve.Params().BitSize + 7) / 8
		var r, s []byte
		for _, x := range m.path.signs {
			if x.pub == id && x.alg == "ec" && sameVals(x.digest, dg) {
				r, s = x.r, x.s
			}
		}
		if r == nil {
			if m.path.opts["sig-shapes"] != 0 {
				// leading zero bytes in r or s are legitimate signatures
				t := m.sigTag(2 * size)
				r, s = t[:size], append([]byte{}, t[size:]...)
				s[0] = 0x40 | s[0]&0x3f
				switch m.choose(4) {
				case 1:
					r[0] = 0
					r[1] |= 1
				case 2:
					s[0] = 0
					s[1] |= 1
				case 3:
					r[0], r[1], r[2], s[0], s[1] = 0, 0, r[2]|1, 0, 0
				}
			} else if db, ok := concBytes(dg); ok {
				x := memo("ecsig:"+id+":"+string(db), func() ecSig {
					r, s, err := ecdsaDeterministic(priv, db)
					return ecSig{r, s, err}
				})
				if x.err != nil {
					return Tuple{(*Value)(nil), (*Value)(nil), m.mkError(x.err)}
				}
				r, s = x.r.FillBytes(make([]byte, size)), x.s.FillBytes(make([]byte, size))
			} else {
				t := m.sigTag(2 * size)
				r, s = t[:size], append([]byte{}, t[size:]...)
				s[0] = 0x40 | s[0]&0x3f
			}
			m.path.signs = append(m.path.signs, &signRec{pub: id, digest: dg, r: r, s: s, alg: "ec"})
		}
		return Tuple{m.bigToPtr(new(big.Int).SetBytes(r)), m.bigToPtr(new(big.Int).SetBytes(s)), Iface{}}
	}
	intrinsics["crypto/ecdsa.Verify"] = func(m *Machine, fr *frame, a []Value) Value {
		pub := m.ecPubOf(a[0])
		if pub == nil || pub.X == nil || pub.Y == nil || pub.Curve == nil {
			panic(m.rtPanicAt(fr, "invalid memory address or nil pointer dereference"))
		}
		dg := a[1].(Slice)
		size := (pub.Curve.Params().BitSize + 7) / 8
		rb, sb := m.bigBytes(a[2], size), m.bigBytes(a[3], size)
		if pub.X.Sign() == 0 && pub.Y.Sign() == 0 || !pub.Curve.IsOnCurve(pub.X, pub.Y) {
			return false
		}
		c := m.sigMatch(m.path.signs, ecID(pub), "ec", dg, func(r *signRec) Value {
			return m.andV(m.bytesEq(rb, cellsOf(r.r)), m.bytesEq(sb, cellsOf(r.s)))
		})
		if b, ok := c.(bool); ok && !b && allConc(dg, rb, sb) {
			db, _ := concBytes(dg)
			r, _ := concBytes(rb)
			s, _ := concBytes(sb)
			return memo("ecver:"+ecID(pub)+":"+string(db)+":"+string(r)+":"+string(s), func() bool {
				return ecdsa.Verify(pub, db, new(big.Int).SetBytes(r), new(big.Int).SetBytes(s))
			})
		}
		return c
	}
	hashOf := func(m *Machine, v Value) crypto.Hash { return crypto.Hash(m.concIdx(v)) }
	intrinsics["crypto/rsa.SignPKCS1v15"] = func(m *Machine, fr *frame, a []Value) Value {
		priv := m.rsaPrivOf(a[1])
		dg := append([]Value{}, a[3].(Slice)...)
		h := hashOf(m, a[2])
		if h != 0 && len(dg) != h.Size() {
			return Tuple{Slice(nil), m.errorStr("crypto/rsa: input must be hashed message")}
		}
		id, alg := rsaID(&priv.PublicKey), fmt.Sprint("pkcs1-", int(h))
		size := priv.Size()
		var sig []byte
		for _, x := range m.path.signs {
			if x.pub == id && x.alg == alg && sameVals(x.digest, dg) {
				sig = x.sig
			}
		}
		if sig == nil {
			if db, ok := concBytes(dg); ok {
				x := memo("rsasig:"+id+alg+":"+string(db), func() bytesRes {
					b, err := rsa.SignPKCS1v15(nil, priv, h, db)
					return bytesRes{b, err}
				})
				if x.err != nil {
					return Tuple{Slice(nil), m.mkError(x.err)}
				}
				sig = x.b
			} else {
				sig = m.sigTag(size)
			}
			m.path.signs = append(m.path.signs, &signRec{pub: id, digest: dg, sig: sig, alg: alg})
		}
		return Tuple{bytesToSlice(sig), Iface{}}
	}
	intrinsics["crypto/rsa.VerifyPKCS1v15"] = func(m *Machine, fr *frame, a []Value) Value {
		pub := m.rsaPubOf(a[0])
		h := hashOf(m, a[1])
		dg, sig := a[2].(Slice), a[3].(Slice)
		bad := m.errorStr("crypto/rsa: verification error")
		if len(sig) != pub.Size() {
			return bad
		}
		c := m.sigMatch(m.path.signs, rsaID(pub), fmt.Sprint("pkcs1-", int(h)), dg, func(r *signRec) Value { return m.bytesEq(sig, cellsOf(r.sig)) })
		if b, ok := c.(bool); ok && !b && allConc(dg, sig) {
			db, _ := concBytes(dg)
			s, _ := concBytes(sig)
			return m.mkError(rsa.VerifyPKCS1v15(pub, h, db, s))
		}
		if m.branchV(c) {
			return Iface{}
		}
		return bad
	}
	intrinsics["crypto/rsa.EncryptOAEP"] = func(m *Machine, fr *frame, a []Value) Value {
		pub := m.rsaPubOf(a[2])
		msg := append([]Value{}, a[3].(Slice)...)
		k := pub.Size()
		if len(msg) > k-2*32-2 {
			return Tuple{Slice(nil), m.errorStr("crypto/rsa: message too long for RSA key size")}
		}
		ct := m.sigTag(k)
		m.path.signs = append(m.path.signs, &signRec{pub: rsaID(pub), alg: "oaep", digest: msg, sig: ct})
		return Tuple{bytesToSlice(ct), Iface{}}
	}
	intrinsics["crypto/rsa.DecryptOAEP"] = func(m *Machine, fr *frame, a []Value) Value {
		priv := m.rsaPrivOf(a[2])
		if priv == nil {
			panic(m.rtPanicAt(fr, "invalid memory address or nil pointer dereference"))
		}
		ct := a[3].(Slice)
		for _, r := range m.path.signs {
			if r.alg == "oaep" && r.pub == rsaID(&priv.PublicKey) && m.branchV(m.bytesEq(ct, cellsOf(r.sig))) {
				return Tuple{Slice(append([]Value{}, r.digest...)), Iface{}}
			}
		}
		if cb, ok := concBytes(ct); ok {
			b, err := rsa.DecryptOAEP(sha256.New(), nil, priv, cb, nil)
			return Tuple{bytesToSlice(b), m.mkError(err)}
		}
		return Tuple{Slice(nil), m.errorStr("crypto/rsa: decryption error")}
	}
	intrinsics["(*crypto/rsa.PrivateKey).Precompute"] = func(m *Machine, fr *frame, a []Value) Value { return nil }
	// x509
	parseCert := func(der []byte) certRes {
		return memo("cert:"+string(der), func() certRes {
			c, err := x509.ParseCertificate(der)
			return certRes{c, err}
		})
	}
	certPtr := func(m *Machine, c *x509.Certificate) Value {
		t := m.eng.typeByName("crypto/x509", "Certificate")
		p := new(Value)
		*p = m.structByName(reflect.ValueOf(c).Elem(), t)
		return p
	}
	concOrKnown := func(m *Machine, kind string, b []Value) ([]byte, bool) {
		if cb, ok := concBytes(b); ok {
			m.path.noteKnown(kind, cb)
			return cb, true
		}
		for _, k := range m.path.known2(kind) {
			if len(k) == len(b) && m.branchV(m.bytesEq(b, cellsOf(k))) {
				return k, true
			}
		}
		m.note("symbolic " + kind + ": rejected unless it equals a known encoding")
		return nil, false
	}
	intrinsics["crypto/x509.ParseCertificate"] = func(m *Machine, fr *frame, a []Value) Value {
		b, ok := concOrKnown(m, "certificate", a[0].(Slice))
		if !ok {
			return Tuple{(*Value)(nil), m.errorStr("x509: malformed certificate")}
		}
		r := parseCert(b)
		if r.err != nil {
			return Tuple{(*Value)(nil), m.mkError(r.err)}
		}
		return Tuple{certPtr(m, r.c), Iface{}}
	}
	certRaw := func(m *Machine, v Value) []byte {
		p, _ := v.(*Value)
		if p == nil {
			return nil
		}
		return mustConc((*p).(Struct)[0].(Slice), "certificate")
	}
	intrinsics["crypto/x509.NewCertPool"] = func(m *Machine, fr *frame, a []Value) Value { return &NativeV{&poolObj{}} }
	intrinsics["(*crypto/x509.CertPool).AddCert"] = func(m *Machine, fr *frame, a []Value) Value {
		raw := certRaw(m, a[1])
		if raw == nil {
			panic(goPanic(m, fr, "adding nil Certificate to CertPool"))
		}
		p := a[0].(*NativeV).v.(*poolObj)
		p.raw = append(p.raw, raw)
		return nil
	}
	intrinsics["(*crypto/x509.Certificate).Verify"] = func(m *Machine, fr *frame, a []Value) Value {
		raw := certRaw(m, a[0])
		ot := m.eng.typeByName("crypto/x509", "VerifyOptions")
		os := a[1].(Struct)
		key := "verify:" + string(raw)
		get := func(n string) *poolObj {
			if nv, ok := m.structField(ot, os, n).(*NativeV); ok && nv != nil {
				return nv.v.(*poolObj)
			}
			return nil
		}
		ri, rr := get("Intermediates"), get("Roots")
		mk := func(p *poolObj, tag string) *x509.CertPool {
			if p == nil {
				key += tag + "nil"
				return nil
			}
			c := x509.NewCertPool()
			for _, b := range p.raw {
				key += tag + string(b)
				c.AddCert(parseCert(b).c)
			}
			return c
		}
		pi, pr := mk(ri, "|I|"), mk(rr, "|R|")
		for _, f := range []string{"DNSName"} {
			if s, ok := m.structField(ot, os, f).(string); !ok || s != "" {
				panic(unsup("x509 VerifyOptions.%s", f))
			}
		}
		if ku := m.structField(ot, os, "KeyUsages").(Slice); len(ku) != 0 {
			panic(unsup("x509 VerifyOptions.KeyUsages"))
		}
		type vr struct {
			c   [][]*x509.Certificate
			err error
		}
		r := memo(key, func() vr {
			c, err := parseCert(raw).c.Verify(x509.VerifyOptions{Intermediates: pi, Roots: pr, CurrentTime: m.eng.now()})
			return vr{c, err}
		})
		if r.err != nil {
			return Tuple{Slice(nil), m.mkError(r.err)}
		}
		var out Slice
		for _, ch := range r.c {
			var l Slice
			for _, c := range ch {
				l = append(l, certPtr(m, c))
			}
			out = append(out, l)
		}
		return Tuple{out, Iface{}}
	}
	intrinsics["crypto/x509.ParsePKIXPublicKey"] = func(m *Machine, fr *frame, a []Value) Value {
		b, ok := concOrKnown(m, "pkix", a[0].(Slice))
		if !ok {
			return Tuple{Iface{}, m.errorStr("asn1: structure error")}
		}
		r := memo("pkix:"+string(b), func() anyRes {
			k, err := x509.ParsePKIXPublicKey(b)
			return anyRes{k, err}
		})
		if r.err != nil {
			return Tuple{Iface{}, m.mkError(r.err)}
		}
		switch r.k.(type) {
		case *ecdsa.PublicKey, *rsa.PublicKey:
			return Tuple{m.pubIface(r.k), Iface{}}
		}
		return Tuple{m.nativeIface(r.k), Iface{}}
	}
	intrinsics["crypto/x509.MarshalPKIXPublicKey"] = func(m *Machine, fr *frame, a []Value) Value {
		if i := a[0].(Iface); i.t != nil && i.t.String() == "*crypto/rsa.PublicKey" {
			if p, _ := i.v.(*Value); p != nil {
				s := (*p).(Struct)
				if e, ok := s[1].(C); ok {
					n := m.bigBytes(s[0], 0)
					if _, conc := concBytes(n); !conc {
						return Tuple{m.derRSA(n, int64(e)), Iface{}}
					}
				}
			}
		}
		k := m.keyOf(a[0].(Iface))
		if k == nil {
			return Tuple{Slice(nil), m.errorStr("x509: unsupported public key type")}
		}
		b, err := x509.MarshalPKIXPublicKey(k)
		if err != nil {
			return Tuple{Slice(nil), m.mkError(err)}
		}
		m.path.noteKnown("pkix", b)
		return Tuple{bytesToSlice(b), Iface{}}
	}
	privParse := func(name string, f func([]byte) (any, error), wrap bool) {
		intrinsics["crypto/x509."+name] = func(m *Machine, fr *frame, a []Value) Value {
			b, ok := concOrKnown(m, name, a[0].(Slice))
			if !ok {
				if wrap {
					return Tuple{Iface{}, m.errorStr("x509: failed to parse private key")}
				}
				return Tuple{(*Value)(nil), m.errorStr("x509: failed to parse private key")}
			}
			r := memo(name+":"+string(b), func() anyRes {
				k, err := f(b)
				return anyRes{k, err}
			})
			if r.err != nil {
				if wrap {
					return Tuple{Iface{}, m.mkError(r.err)}
				}
				return Tuple{(*Value)(nil), m.mkError(r.err)}
			}
			if !wrap {
				return Tuple{m.pubIface(r.k).(Iface).v, Iface{}}
			}
			switch r.k.(type) {
			case *ecdsa.PrivateKey, *rsa.PrivateKey:
				return Tuple{m.pubIface(r.k), Iface{}}
			}
			return Tuple{m.nativeIface(r.k), Iface{}}
		}
	}
	privParse("ParsePKCS1PrivateKey", func(b []byte) (any, error) { return x509.ParsePKCS1PrivateKey(b) }, false)
	privParse("ParsePKCS8PrivateKey", func(b []byte) (any, error) { return x509.ParsePKCS8PrivateKey(b) }, true)
	privParse("ParseECPrivateKey", func(b []byte) (any, error) { return x509.ParseECPrivateKey(b) }, false)
	marshalPriv := func(name string, f func(k any) ([]byte, error)) {
		intrinsics["crypto/x509."+name] = func(m *Machine, fr *frame, a []Value) Value {
			i, ok := a[0].(Iface)
			if !ok {
				t := "crypto/ecdsa"
				if name == "MarshalPKCS1PrivateKey" {
					t = "crypto/rsa"
				}
				i = Iface{types.NewPointer(m.eng.typeByName(t, "PrivateKey")), a[0]}
			}
			k := m.keyOf(i)
			if k == nil {
				return Tuple{Slice(nil), m.errorStr("x509: unknown key type while marshaling PKCS#8")}
			}
			b, err := f(k)
			if name == "MarshalPKCS1PrivateKey" {
				return bytesToSlice(b)
			}
			return Tuple{bytesToSlice(b), m.mkError(err)}
		}
	}
	marshalPriv("MarshalPKCS8PrivateKey", x509.MarshalPKCS8PrivateKey)
	marshalPriv("MarshalECPrivateKey", func(k any) ([]byte, error) { return x509.MarshalECPrivateKey(k.(*ecdsa.PrivateKey)) })
	marshalPriv("MarshalPKCS1PrivateKey", func(k any) ([]byte, error) { return x509.MarshalPKCS1PrivateKey(k.(*rsa.PrivateKey)), nil })
	intrinsics["crypto/x509.CreateCertificate"] = func(m *Machine, fr *frame, a []Value) Value {
		tp, parent := a[1].(*Value), a[2].(*Value)
		pub, priv := m.keyOf(a[3].(Iface)), m.keyOf(a[4].(Iface))
		t := m.eng.typeByName("crypto/x509", "Certificate")
		nt := m.certTemplate(t, (*tp).(Struct))
		np := nt
		if parent != tp {
			if raw := (*parent).(Struct)[0].(Slice); len(raw) > 0 {
				r := parseCert(mustConc(raw, "certificate"))
				if r.err != nil {
					return Tuple{Slice(nil), m.mkError(r.err)}
				}
				np = r.c
			} else {
				np = m.certTemplate(t, (*parent).(Struct))
			}
		}
		if pub == nil || priv == nil {
			return Tuple{Slice(nil), m.errorStr("x509: unsupported key")}
		}
		pb, _ := x509.MarshalPKIXPublicKey(pub)
		kb, _ := x509.MarshalPKCS8PrivateKey(priv)
		key := fmt.Sprintf("mkcert:%+v|%x|%x|%x", nt, np.Raw, pb, kb)
		r := memo(key, func() bytesRes {
			b, err := x509.CreateCertificate(detRand{}, nt, np, pub, priv)
			return bytesRes{b, err}
		})
		if r.err != nil {
			return Tuple{Slice(nil), m.mkError(r.err)}
		}
		return Tuple{bytesToSlice(r.b), Iface{}}
	}
	// math/big
	bigOp := func(name string, n int, f func(z *big.Int, x []*big.Int) *big.Int) {
		intrinsics["(*math/big.Int)."+name] = func(m *Machine, fr *frame, a []Value) (res Value) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(errSymbolic); ok {
						res = fallThrough{}
						return
					}
					panic(r)
				}
			}()
			var xs []*big.Int
			for i := 1; i <= n; i++ {
				x := m.bigOf(a[i])
				xs = append(xs, x)
			}
			z := f(new(big.Int), xs)
			if z == nil {
				return (*Value)(nil)
			}
			m.store(m.deref(fr, a[0]), m.bigToStruct(z))
			return a[0]
		}
	}
	bigOp("Exp", 3, func(z *big.Int, x []*big.Int) *big.Int { return z.Exp(x[0], x[1], x[2]) })
	bigOp("ModInverse", 2, func(z *big.Int, x []*big.Int) *big.Int { return z.ModInverse(x[0], x[1]) })
	intrinsics["(*math/big.Int).SetString"] = func(m *Machine, fr *frame, a []Value) Value {
		s, ok := a[1].(string)
		if !ok {
			return fallThrough{}
		}
		z, ok := new(big.Int).SetString(s, int(m.concIdx(a[2])))
		if !ok {
			return Tuple{(*Value)(nil), false}
		}
		m.store(m.deref(fr, a[0]), m.bigToStruct(z))
		return Tuple{a[0], true}
	}
	intrinsics["(*math/big.Int).SetBytes"] = func(m *Machine, fr *frame, a []Value) Value {
		b := a[1].(Slice)
		p := m.deref(fr, a[0])
		if cb, ok := concBytes(b); ok {
			m.store(p, m.bigToStruct(new(big.Int).SetBytes(cb)))
			return a[0]
		}
		// unnormalised words
		for len(b) > 0 && b[0] == Value(C(0)) {
			b = b[1:]
		}
		n := (len(b) + 7) / 8
		nat := make(Slice, n)
		for i := 0; i < n; i++ {
			var w *Term
			for j := 0; j < 8; j++ {
				k := len(b) - 1 - i*8 - j
				var x *Term
				if k >= 0 {
					x = m.T(b[k], 8)
				} else {
					x = m.bank.Const(0, 8)
				}
				if w == nil {
					w = x
				} else {
					w = m.bank.Concat(x, w)
				}
			}
			nat[i] = V(w)
		}
		m.store(p, Struct{false, nat})
		return a[0]
	}
	intrinsics["(*math/big.Int).Bytes"] = func(m *Machine, fr *frame, a []Value) Value {
		m.deref(fr, a[0])
		b := m.bigBytes(a[0], 0)
		for len(b) > 0 && m.branchV(m.eq(b[0], C(0))) {
			b = b[1:]
		}
		return Slice(append([]Value{}, b...))
	}
}

// derRSA is the PKIX encoding of an RSA key with a symbolic modulus.
func (m *Machine) derRSA(n []Value, e int64) Slice {
	for len(n) > 0 && m.branchV(m.eq(n[0], C(0))) {
		n = n[1:]
	}
	if len(n) == 0 || m.branchV(V(m.bank.Not(m.bank.Bin(OULT, m.T(n[0], 8), m.bank.Const(0x80, 8))))) {
		n = append([]Value{C(0)}, n...)
	}
	tlv := func(tag byte, body []Value) []Value {
		l := len(body)
		h := []byte{tag}
		switch {
		case l < 128:
			h = append(h, byte(l))
		case l < 256:
			h = append(h, 0x81, byte(l))
		default:
			h = append(h, 0x82, byte(l>>8), byte(l))
		}
		return append(cellsOf(h), body...)
	}
	eb := big.NewInt(e).Bytes()
	if len(eb) == 0 || eb[0] >= 0x80 {
		eb = append([]byte{0}, eb...)
	}
	key := tlv(0x30, append(tlv(2, n), tlv(2, cellsOf(eb))...))
	alg := cellsOf([]byte{0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01, 0x05, 0x00})
	return Slice(tlv(0x30, append(alg, tlv(3, append([]Value{C(0)}, key...))...)))
}

// detRand is a fixed stream for certificate creation.
type detRand struct{}

func (detRand) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(i*7 + 1)
	}
	return len(b), nil
}

func (p *Path) noteKnown(kind string, b []byte) {
	if p.knownEnc == nil {
		p.knownEnc = map[string][][]byte{}
	}
	for _, x := range p.knownEnc[kind] {
		if bytes.Equal(x, b) {
			return
		}
	}
	p.knownEnc[kind] = append(p.knownEnc[kind], append([]byte{}, b...))
}
func (p *Path) known2(kind string) [][]byte { return p.knownEnc[kind] }

// structByName converts a native struct whose layout may differ between releases.
func (m *Machine) structByName(v reflect.Value, t types.Type) Value {
	st := t.Underlying().(*types.Struct)
	r := m.zero(t).(Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := v.FieldByName(st.Field(i).Name())
		if !f.IsValid() {
			continue
		}
		switch st.Field(i).Name() {
		case "PublicKey":
			k := f.Interface()
			switch k.(type) {
			case *ecdsa.PublicKey, *rsa.PublicKey:
				r[i] = m.pubIface(k)
			}
			continue
		case "Policies", "PolicyMappings", "URIs", "PermittedIPRanges", "ExcludedIPRanges", "UnknownExtKeyUsage", "PolicyIdentifiers":
			continue
		}
		r[i] = m.toInterp(f, st.Field(i).Type(), map[uintptr]*Value{})
	}
	return r
}

// certTemplate converts the template fields the repository uses.
func (m *Machine) certTemplate(t types.Type, s Struct) *x509.Certificate {
	c := &x509.Certificate{}
	v := reflect.ValueOf(c).Elem()
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		switch n {
		case "PublicKey":
			if i2, ok := s[i].(Iface); ok && i2.t != nil {
				c.PublicKey = m.keyOf(i2)
			}
			continue
		case "Policies", "PolicyMappings", "URIs", "PermittedIPRanges", "ExcludedIPRanges":
			continue
		}
		f := v.FieldByName(n)
		if !f.IsValid() {
			continue
		}
		m.toNative(s[i], f, map[*Value]reflect.Value{})
	}
	return c
}

func ecdsaDeterministic(k *ecdsa.PrivateKey, digest []byte) (*big.Int, *big.Int, error) {
	// RFC 6979 style nonce derived with SHA-512; any valid signature will do here
	n := k.Curve.Params().N
	for i := 0; ; i++ {
		h := sha512.Sum512(append(append(k.D.Bytes(), digest...), byte(i)))
		h2 := sha512.Sum512(h[:])
		kk := new(big.Int).SetBytes(append(h[:], h2[:]...))
		kk.Mod(kk, n)
		if kk.Sign() == 0 {
			continue
		}
		x, _ := k.Curve.ScalarBaseMult(kk.Bytes())
		r := new(big.Int).Mod(x, n)
		if r.Sign() == 0 {
			continue
		}
		z := new(big.Int).SetBytes(digest)
		if d := len(digest)*8 - n.BitLen(); d > 0 {
			z.Rsh(z, uint(d))
		}
		s := new(big.Int).Mul(r, k.D)
		s.Add(s, z)
		s.Mul(s, new(big.Int).ModInverse(kk, n))
		s.Mod(s, n)
		if s.Sign() == 0 {
			continue
		}
		return r, s, nil
	}
}

// refCCM is an independent RFC 3610 implementation, used as the concrete AEAD behind the
// ideal one.
type refCCM struct {
	b        cipher.Block
	tag, non int
}

func (c *refCCM) NonceSize() int { return c.non }
func (c *refCCM) Overhead() int  { return c.tag }
func (c *refCCM) mac(nonce, pt, aad []byte) []byte {
	L := 15 - c.non
	b0 := make([]byte, 16)
	b0[0] = byte((c.tag-2)/2)<<3 | byte(L-1)
	if len(aad) > 0 {
		b0[0] |= 0x40
	}
	copy(b0[1:], nonce)
	for i, n := 15, len(pt); i > 15-L; i-- {
		b0[i] = byte(n)
		n >>= 8
	}
	blocks := append([]byte{}, b0...)
	if n := len(aad); n > 0 {
		if n < 0xff00 {
			blocks = append(blocks, byte(n>>8), byte(n))
		} else {
			blocks = append(blocks, 0xff, 0xfe, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
		}
		blocks = append(blocks, aad...)
		for len(blocks)%16 != 0 {
			blocks = append(blocks, 0)
		}
	}
	blocks = append(blocks, pt...)
	for len(blocks)%16 != 0 {
		blocks = append(blocks, 0)
	}
	x := make([]byte, 16)
	for i := 0; i < len(blocks); i += 16 {
		for j := range x {
			x[j] ^= blocks[i+j]
		}
		c.b.Encrypt(x, x)
	}
	return x[:c.tag]
}
func (c *refCCM) stream(nonce []byte, i int) []byte {
	L := 15 - c.non
	a := make([]byte, 16)
	a[0] = byte(L - 1)
	copy(a[1:], nonce)
	for j := 15; j > 15-L; j-- {
		a[j] = byte(i)
		i >>= 8
	}
	o := make([]byte, 16)
	c.b.Encrypt(o, a)
	return o
}
func (c *refCCM) crypt(nonce, in []byte) []byte {
	out := make([]byte, len(in))
	for i := range in {
		if i%16 == 0 {
		}
		out[i] = in[i] ^ c.stream(nonce, i/16+1)[i%16]
	}
	return out
}
func (c *refCCM) Seal(dst, nonce, pt, aad []byte) []byte {
	t := c.mac(nonce, pt, aad)
	s0 := c.stream(nonce, 0)
	dst = append(dst, c.crypt(nonce, pt)...)
	for i := range t {
		dst = append(dst, t[i]^s0[i])
	}
	return dst
}
func (c *refCCM) Open(dst, nonce, ct, aad []byte) ([]byte, error) {
	if len(ct) < c.tag {
		return nil, fmt.Errorf("ccm: ciphertext too short")
	}
	pt := c.crypt(nonce, ct[:len(ct)-c.tag])
	if !bytes.Equal(c.Seal(nil, nonce, pt, aad), ct) {
		return nil, fmt.Errorf("ccm: message authentication failed")
	}
	return append(dst, pt...), nil
}

var _ = time.Now
var _ *ssa.Function
