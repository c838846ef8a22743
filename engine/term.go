package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms: hash-consed bit-vector / Bool DAG. Width 0 means Bool.
type Op uint8

const (
	OVar Op = iota
	OConst
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot
	ONeg
	OShl
	OLShr
	OAShr
	OConcat
	OExtract // k = lo
	OZExt
	OSExt
	OEq
	OULT
	OULE
	OSLT
	OSLE
	OBAnd
	OBOr
	OBNot
	OIte
)

var opNames = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat",
	OEq: "=", OULT: "bvult", OULE: "bvule", OSLT: "bvslt", OSLE: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not", OIte: "ite"}

type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
	name    string
	id      int32
	mx      uint64 // upper bound (unsigned)
	ev      uint64 // evaluation cache
	evStamp uint32
	emit    uint32 // emission stamp
	h       uint64 // structural hash, independent of ids
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

// TermBank is per worker.
type TermBank struct {
	tab   map[tkey]*Term
	next  int32
	stamp uint32
	nvar  int
	vars  map[string]*Term
}

func NewBank() *TermBank { return &TermBank{tab: map[tkey]*Term{}, vars: map[string]*Term{}} }

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}
func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (tb *TermBank) mk(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := tkey{op, w, tid(a), tid(b), tid(c), k}
	if t, ok := tb.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, k: k, id: tb.next}
	tb.next++
	t.mx = upper(t)
	t.h = structHash(t)
	tb.tab[key] = t
	return t
}

func mixh(a, b uint64) uint64 {
	x := a ^ (b + 0x9e3779b97f4a7c15 + a<<6 + a>>2)
	x ^= x >> 31
	x *= 0xbf58476d1ce4e5b9
	return x ^ x>>29
}

func structHash(t *Term) uint64 {
	h := mixh(uint64(t.op)<<8|uint64(t.w), t.k)
	var ha, hb, hc uint64
	if t.a != nil {
		ha = t.a.h
	}
	if t.b != nil {
		hb = t.b.h
	}
	if t.c != nil {
		hc = t.c.h
	}
	switch t.op {
	case OAdd, OMul, OAnd, OOr, OXor, OEq, OBAnd, OBOr:
		return mixh(h, ha+hb+(ha^hb)*31)
	}
	return mixh(mixh(mixh(h, ha), hb), hc)
}

func upper(t *Term) uint64 {
	m := mask(t.w)
	switch t.op {
	case OConst:
		return t.k
	case OZExt:
		return t.a.mx
	case OAnd:
		if t.a.mx < t.b.mx {
			return t.a.mx
		}
		return t.b.mx
	case OOr, OXor:
		x := t.a.mx | t.b.mx
		n := bits.Len64(x)
		return mask(uint8(n)) & m
	case OAdd:
		s, c := bits.Add64(t.a.mx, t.b.mx, 0)
		if c == 0 && s <= m {
			return s
		}
	case OMul:
		hi, lo := bits.Mul64(t.a.mx, t.b.mx)
		if hi == 0 && lo <= m {
			return lo
		}
	case OLShr:
		if t.b.op == OConst {
			if t.b.k >= 64 {
				return 0
			}
			return t.a.mx >> t.b.k
		}
		return t.a.mx
	case OShl:
		if t.b.op == OConst && t.b.k < 64 {
			s := t.a.mx << t.b.k
			if s>>t.b.k == t.a.mx && s <= m {
				return s
			}
		}
	case OURem:
		if t.b.op == OConst && t.b.k > 0 {
			if t.a.mx < t.b.k-1 {
				return t.a.mx
			}
			return t.b.k - 1
		}
		return t.a.mx
	case OUDiv:
		if t.b.op == OConst && t.b.k > 0 {
			return t.a.mx / t.b.k
		}
	case OIte:
		if t.b.mx > t.c.mx {
			return t.b.mx
		}
		return t.c.mx
	case OConcat:
		return (t.a.mx << t.b.w) | t.b.mx
	case OExtract:
		if t.k == 0 && t.a.mx <= m {
			return t.a.mx
		}
		if v := t.a.mx >> t.k; v < m {
			return v
		}
	}
	return m
}

func (tb *TermBank) Var(name string, w uint8) *Term {
	if t, ok := tb.vars[name]; ok {
		if t.w != w {
			panic("variable " + name + " redeclared with another width")
		}
		return t
	}
	t := &Term{op: OVar, w: w, name: name, id: tb.next}
	t.h = 14695981039346656037
	for i := 0; i < len(name); i++ {
		t.h = (t.h ^ uint64(name[i])) * 1099511628211
	}
	tb.vars[name] = t
	tb.next++
	t.mx = mask(w)
	if w == 0 {
		t.mx = 1
	}
	return t
}
func (tb *TermBank) Const(k uint64, w uint8) *Term { return tb.mk(OConst, w, nil, nil, nil, k&mask(w)) }
func (tb *TermBank) True() *Term                   { return tb.mk(OConst, 0, nil, nil, nil, 1) }
func (tb *TermBank) False() *Term                  { return tb.mk(OConst, 0, nil, nil, nil, 0) }
func (tb *TermBank) Bool(b bool) *Term {
	if b {
		return tb.True()
	}
	return tb.False()
}
func (t *Term) isC() bool         { return t.op == OConst }
func (t *Term) isK(k uint64) bool { return t.op == OConst && t.k == k }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func evalOp(op Op, w uint8, aw uint8, a, b uint64, k uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case ONot:
		return ^a & m
	case ONeg:
		return (-a) & m
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m
	case OExtract:
		return (a >> k) & m
	case OZExt:
		return a
	case OSExt:
		return uint64(sext(a, aw)) & m
	case OEq:
		if a == b {
			return 1
		}
		return 0
	case OULT:
		return b2u(a < b)
	case OULE:
		return b2u(a <= b)
	case OSLT:
		return b2u(sext(a, aw) < sext(b, aw))
	case OSLE:
		return b2u(sext(a, aw) <= sext(b, aw))
	}
	panic("evalOp")
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// ---- lanes: byte decomposition of terms whose width is a multiple of 8
// returns nil if not decomposable cheaply. lanes[0] = least significant.
func (tb *TermBank) lanes(t *Term, depth int) []*Term {
	if t.w == 0 || t.w%8 != 0 || depth > 12 {
		return nil
	}
	n := int(t.w / 8)
	zero := func() *Term { return tb.Const(0, 8) }
	switch t.op {
	case OConst:
		r := make([]*Term, n)
		for i := range r {
			r[i] = tb.Const((t.k>>(8*uint(i)))&0xff, 8)
		}
		return r
	case OZExt:
		if t.a.w%8 != 0 || t.a.w == 0 {
			return nil
		}
		l := tb.lanes(t.a, depth+1)
		if l == nil {
			return nil
		}
		r := append([]*Term{}, l...)
		for len(r) < n {
			r = append(r, zero())
		}
		return r
	case OConcat:
		lo := tb.lanes(t.b, depth+1)
		hi := tb.lanes(t.a, depth+1)
		if lo == nil || hi == nil {
			return nil
		}
		return append(append([]*Term{}, lo...), hi...)
	}
	if t.w == 8 {
		return []*Term{t}
	}
	return nil
}

func (tb *TermBank) fromLanes(l []*Term) *Term {
	// all const?
	n := len(l)
	// strip high zero lanes
	hi := n
	for hi > 1 && l[hi-1].isK(0) {
		hi--
	}
	// merge constants & adjacent extracts via Concat
	cur := l[0]
	for i := 1; i < hi; i++ {
		cur = tb.Concat(l[i], cur)
	}
	if hi < n {
		cur = tb.ZExt(cur, uint8(8*n))
	}
	return cur
}

func (tb *TermBank) mergeLanes(a, b *Term) *Term {
	if a.w < 16 {
		return nil
	}
	la := tb.lanes(a, 0)
	if la == nil {
		return nil
	}
	lb := tb.lanes(b, 0)
	if lb == nil {
		return nil
	}
	r := make([]*Term, len(la))
	for i := range la {
		if la[i].isK(0) {
			r[i] = lb[i]
		} else if lb[i].isK(0) {
			r[i] = la[i]
		} else if la[i].isC() && lb[i].isC() && la[i].k&lb[i].k == 0 {
			r[i] = tb.Const(la[i].k|lb[i].k, 8)
		} else {
			return nil
		}
	}
	return tb.fromLanes(r)
}

// ---- constructors
func (tb *TermBank) Bin(op Op, a, b *Term) *Term {
	w := a.w
	rw := w
	switch op {
	case OEq:
		return tb.Eq(a, b)
	case OULT, OULE, OSLT, OSLE:
		rw = 0
	}
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch op %s %d %d", opNames[op], a.w, b.w))
	}
	if a.isC() && b.isC() {
		return tb.mk(OConst, rw, nil, nil, nil, evalOp(op, rw, w, a.k, b.k, 0))
	}
	// commutative: const on the right
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor:
		if a.isC() || (!b.isC() && a.id > b.id) {
			a, b = b, a
		}
	}
	m := mask(w)
	switch op {
	case OAdd:
		if b.isK(0) {
			return a
		}
		if b.isC() && a.op == OAdd && a.b.isC() {
			return tb.Bin(OAdd, a.a, tb.Const(a.b.k+b.k, w))
		}
		if r := tb.mergeLanes(a, b); r != nil {
			return r
		}
	case OSub:
		if b.isK(0) {
			return a
		}
		if a == b {
			return tb.Const(0, w)
		}
		if b.isC() {
			return tb.Bin(OAdd, a, tb.Const(-b.k, w))
		}
		// (x + c) - x
		if a.op == OAdd && a.a == b {
			return a.b
		}
		if a.op == OAdd && a.b == b {
			return a.a
		}
	case OMul:
		if b.isK(0) {
			return b
		}
		if b.isK(1) {
			return a
		}
		if b.isC() && b.k&(b.k-1) == 0 {
			return tb.Bin(OShl, a, tb.Const(uint64(bits.TrailingZeros64(b.k)), w))
		}
	case OUDiv:
		if b.isK(1) {
			return a
		}
		if b.isC() && b.k != 0 && b.k&(b.k-1) == 0 {
			return tb.Bin(OLShr, a, tb.Const(uint64(bits.TrailingZeros64(b.k)), w))
		}
	case OURem:
		if b.isC() && b.k != 0 && b.k&(b.k-1) == 0 {
			return tb.Bin(OAnd, a, tb.Const(b.k-1, w))
		}
		if b.isC() && b.k != 0 && a.mx < b.k {
			return a
		}
	case OAnd:
		if b.isK(0) {
			return b
		}
		if b.isC() && b.k == m {
			return a
		}
		if a == b {
			return a
		}
		if b.isC() {
			if a.op == OAnd && a.b.isC() {
				return tb.Bin(OAnd, a.a, tb.Const(a.b.k&b.k, w))
			}
			// low mask covering everything
			if b.k&(b.k+1) == 0 && a.mx <= b.k {
				return a
			}
			if w > 8 {
				if l := tb.lanes(a, 0); l != nil {
					ok := true
					r := make([]*Term, len(l))
					for i := range l {
						bb := (b.k >> (8 * uint(i))) & 0xff
						switch {
						case bb == 0:
							r[i] = tb.Const(0, 8)
						case bb == 0xff:
							r[i] = l[i]
						default:
							r[i] = tb.Bin(OAnd, l[i], tb.Const(bb, 8))
						}
					}
					if ok {
						return tb.fromLanes(r)
					}
				}
				if b.k&(b.k+1) == 0 {
					n := uint8(bits.Len64(b.k))
					return tb.ZExt(tb.Extract(a, 0, n), w)
				}
			}
		}
	case OOr:
		if b.isK(0) {
			return a
		}
		if b.isC() && b.k == m {
			return b
		}
		if a == b {
			return a
		}
		if r := tb.mergeLanes(a, b); r != nil {
			return r
		}
	case OXor:
		if b.isK(0) {
			return a
		}
		if a == b {
			return tb.Const(0, w)
		}
		if r := tb.mergeLanes(a, b); r != nil {
			return r
		}
		// (x ^ y) ^ y
		if a.op == OXor {
			if a.b == b {
				return a.a
			}
			if a.a == b {
				return a.b
			}
		}
		if b.op == OXor {
			if b.b == a {
				return b.a
			}
			if b.a == a {
				return b.b
			}
		}
		if a.op == OXor && a.b.isC() && b.isC() {
			return tb.Bin(OXor, a.a, tb.Const(a.b.k^b.k, w))
		}
	case OShl:
		if b.isK(0) {
			return a
		}
		if b.isC() {
			if b.k >= uint64(w) {
				return tb.Const(0, w)
			}
			if w%8 == 0 && b.k%8 == 0 {
				if l := tb.lanes(a, 0); l != nil {
					s := int(b.k / 8)
					r := make([]*Term, len(l))
					for i := range r {
						if i < s {
							r[i] = tb.Const(0, 8)
						} else {
							r[i] = l[i-s]
						}
					}
					return tb.fromLanes(r)
				}
			}
		}
	case OLShr:
		if b.isK(0) {
			return a
		}
		if b.isC() {
			if b.k >= uint64(w) {
				return tb.Const(0, w)
			}
			return tb.ZExt(tb.Extract(a, uint8(b.k), w-uint8(b.k)), w)
		}
	case OAShr:
		if b.isK(0) {
			return a
		}
		if a.mx <= m>>1 {
			return tb.Bin(OLShr, a, b)
		}
	case OULT:
		if a == b || b.isK(0) {
			return tb.False()
		}
		if b.isC() && a.mx < b.k {
			return tb.True()
		}
		if a.isC() && a.k >= b.mx {
			return tb.False()
		}
		if b.isK(1) {
			return tb.Eq(a, tb.Const(0, w))
		}
		if a.op == OZExt && b.isC() {
			if b.k > mask(a.a.w) {
				return tb.True()
			}
			return tb.Bin(OULT, a.a, tb.Const(b.k, a.a.w))
		}
		if b.op == OZExt && a.isC() {
			if a.k >= mask(b.a.w) {
				return tb.False()
			}
			return tb.Bin(OULT, tb.Const(a.k, b.a.w), b.a)
		}
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return tb.Bin(OULT, a.a, b.a)
		}
	case OULE:
		return tb.Not(tb.Bin(OULT, b, a))
	case OSLT:
		if a == b {
			return tb.False()
		}
		// both non-negative -> unsigned
		h := m >> 1
		if a.mx <= h && b.mx <= h {
			return tb.Bin(OULT, a, b)
		}
	case OSLE:
		return tb.Not(tb.Bin(OSLT, b, a))
	}
	return tb.mk(op, rw, a, b, nil, 0)
}

func (tb *TermBank) Eq(a, b *Term) *Term {
	if a == b {
		return tb.True()
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.isC() && b.isC() {
		return tb.Bool(a.k == b.k)
	}
	if a.isC() || (!b.isC() && a.id > b.id) {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isC() {
			if b.k == 1 {
				return a
			}
			return tb.Not(a)
		}
		return tb.mk(OEq, 0, a, b, nil, 0)
	}
	if b.isC() {
		if b.k > a.mx {
			return tb.False()
		}
		switch a.op {
		case OZExt:
			return tb.Eq(a.a, tb.Const(b.k, a.a.w))
		case OConcat:
			return tb.And(tb.Eq(a.a, tb.Const(b.k>>a.b.w, a.a.w)), tb.Eq(a.b, tb.Const(b.k, a.b.w)))
		case OXor:
			if a.b.isC() {
				return tb.Eq(a.a, tb.Const(a.b.k^b.k, a.w))
			}
		case OAdd:
			if a.b.isC() {
				return tb.Eq(a.a, tb.Const(b.k-a.b.k, a.w))
			}
		case ONot:
			return tb.Eq(a.a, tb.Const(^b.k, a.w))
		case OIte:
			if a.b.isC() && a.c.isC() {
				if a.b.k == b.k && a.c.k == b.k {
					return tb.True()
				}
				if a.b.k == b.k {
					return a.a
				}
				if a.c.k == b.k {
					return tb.Not(a.a)
				}
				return tb.False()
			}
		}
	} else {
		if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w {
			return tb.And(tb.Eq(a.a, b.a), tb.Eq(a.b, b.b))
		}
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return tb.Eq(a.a, b.a)
		}
	}
	return tb.mk(OEq, 0, a, b, nil, 0)
}
func (tb *TermBank) Not(a *Term) *Term {
	if a.isC() {
		return tb.Bool(a.k == 0)
	}
	if a.op == OBNot {
		return a.a
	}
	return tb.mk(OBNot, 0, a, nil, nil, 0)
}
func (tb *TermBank) And(a, b *Term) *Term {
	if a.isC() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return tb.False()
	}
	return tb.mk(OBAnd, 0, a, b, nil, 0)
}
func (tb *TermBank) Or(a, b *Term) *Term {
	if a.isC() {
		if a.k == 1 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.k == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OBNot && a.a == b) || (b.op == OBNot && b.a == a) {
		return tb.True()
	}
	return tb.mk(OBOr, 0, a, b, nil, 0)
}
func (tb *TermBank) Ite(c, a, b *Term) *Term {
	if c.isC() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		// bool ite
		if a.isC() && b.isC() {
			if a.k == 1 {
				return c
			}
			return tb.Not(c)
		}
		return tb.Or(tb.And(c, a), tb.And(tb.Not(c), b))
	}
	return tb.mk(OIte, a.w, c, a, b, 0)
}
func (tb *TermBank) Un(op Op, a *Term) *Term {
	if a.isC() {
		return tb.Const(evalOp(op, a.w, a.w, a.k, 0, 0), a.w)
	}
	if op == ONot && a.op == ONot {
		return a.a
	}
	return tb.mk(op, a.w, a, nil, nil, 0)
}
func (tb *TermBank) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isC() {
		return tb.Const(a.k>>lo, w)
	}
	switch a.op {
	case OExtract:
		return tb.Extract(a.a, lo+uint8(a.k), w)
	case OConcat:
		if lo >= a.b.w {
			return tb.Extract(a.a, lo-a.b.w, w)
		}
		if lo+w <= a.b.w {
			return tb.Extract(a.b, lo, w)
		}
		return tb.Concat(tb.Extract(a.a, 0, lo+w-a.b.w), tb.Extract(a.b, lo, a.b.w-lo))
	case OZExt:
		if lo >= a.a.w {
			return tb.Const(0, w)
		}
		if lo+w <= a.a.w {
			return tb.Extract(a.a, lo, w)
		}
		return tb.ZExt(tb.Extract(a.a, lo, a.a.w-lo), w)
	case OSExt:
		if lo+w <= a.a.w {
			return tb.Extract(a.a, lo, w)
		}
	case OAnd, OOr, OXor:
		if a.b.isC() || w <= 8 {
			return tb.Bin(a.op, tb.Extract(a.a, lo, w), tb.Extract(a.b, lo, w))
		}
	case ONot:
		return tb.Un(ONot, tb.Extract(a.a, lo, w))
	case OIte:
		if a.b.isC() || a.c.isC() {
			return tb.Ite(a.a, tb.Extract(a.b, lo, w), tb.Extract(a.c, lo, w))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return tb.Bin(a.op, tb.Extract(a.a, 0, w), tb.Extract(a.b, 0, w))
		}
	case OShl:
		if lo == 0 && a.b.isC() {
			if a.b.k >= uint64(w) {
				return tb.Const(0, w)
			}
			return tb.Bin(OShl, tb.Extract(a.a, 0, w), tb.Const(a.b.k, w))
		}
		if a.b.isC() && uint64(lo) >= a.b.k {
			return tb.Extract(a.a, lo-uint8(a.b.k), w)
		}
	}
	return tb.mk(OExtract, w, a, nil, nil, uint64(lo))
}
func (tb *TermBank) Concat(hi, lo *Term) *Term {
	if hi.isC() && lo.isC() {
		return tb.Const(hi.k<<lo.w|lo.k, hi.w+lo.w)
	}
	if hi.isK(0) {
		return tb.ZExt(lo, hi.w+lo.w)
	}
	// adjacent extracts of the same term
	if hi.op == OExtract && lo.op == OExtract && hi.a == lo.a && hi.k == lo.k+uint64(lo.w) {
		return tb.Extract(hi.a, uint8(lo.k), hi.w+lo.w)
	}
	if hi.op == OExtract && lo == hi.a {
		_ = hi
	}
	if lo.op == OConcat && hi.op == OExtract && lo.a.op == OExtract && hi.a == lo.a.a && hi.k == lo.a.k+uint64(lo.a.w) {
		return tb.Concat(tb.Extract(hi.a, uint8(lo.a.k), hi.w+lo.a.w), lo.b)
	}
	return tb.mk(OConcat, hi.w+lo.w, hi, lo, nil, 0)
}
func (tb *TermBank) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return tb.Const(a.k, w)
	}
	if a.op == OZExt {
		return tb.ZExt(a.a, w)
	}
	return tb.mk(OZExt, w, a, nil, nil, 0)
}
func (tb *TermBank) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return tb.Const(uint64(sext(a.k, a.w)), w)
	}
	if a.mx <= mask(a.w)>>1 {
		return tb.ZExt(a, w)
	}
	return tb.mk(OSExt, w, a, nil, nil, 0)
}

// ---- evaluation under a model
type Model map[string]uint64

func (tb *TermBank) newStamp() uint32 { tb.stamp++; return tb.stamp }

func evalTerm(t *Term, m Model, stamp uint32) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.evStamp == stamp {
		return t.ev
	}
	var v uint64
	switch t.op {
	case OVar:
		v = m[t.name]
	case OBAnd:
		v = evalTerm(t.a, m, stamp)
		if v == 1 {
			v = evalTerm(t.b, m, stamp)
		}
	case OBOr:
		v = evalTerm(t.a, m, stamp)
		if v == 0 {
			v = evalTerm(t.b, m, stamp)
		}
	case OBNot:
		v = 1 - evalTerm(t.a, m, stamp)
	case OIte:
		if evalTerm(t.a, m, stamp) == 1 {
			v = evalTerm(t.b, m, stamp)
		} else {
			v = evalTerm(t.c, m, stamp)
		}
	case OConcat:
		v = evalTerm(t.a, m, stamp)<<t.b.w | evalTerm(t.b, m, stamp)
	default:
		a := evalTerm(t.a, m, stamp)
		var b uint64
		if t.b != nil {
			b = evalTerm(t.b, m, stamp)
		}
		v = evalOp(t.op, t.w, t.a.w, a, b, t.k)
	}
	t.ev = v
	t.evStamp = stamp
	return v
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}
func refStr(t *Term) string {
	if t.op == OConst {
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	}
	return fmt.Sprintf("t%d", t.id)
}

// emitTerm writes declarations/definitions for t that were not emitted since stamp.
func emitTerm(sb *strings.Builder, t *Term, stamp uint32, vars *[]*Term) {
	if t.op == OConst || t.emit == stamp {
		return
	}
	t.emit = stamp
	if t.op == OVar {
		fmt.Fprintf(sb, "(declare-const t%d %s)\n", t.id, sortStr(t.w))
		*vars = append(*vars, t)
		return
	}
	emitTerm(sb, t.a, stamp, vars)
	if t.b != nil {
		emitTerm(sb, t.b, stamp, vars)
	}
	if t.c != nil {
		emitTerm(sb, t.c, stamp, vars)
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s ", t.id, sortStr(t.w))
	switch t.op {
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", uint64(t.w)+t.k-1, t.k, refStr(t.a))
	case OZExt:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.a.w, refStr(t.a))
	case OSExt:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.a.w, refStr(t.a))
	default:
		sb.WriteString("(" + opNames[t.op] + " " + refStr(t.a))
		if t.b != nil {
			sb.WriteString(" " + refStr(t.b))
		}
		if t.c != nil {
			sb.WriteString(" " + refStr(t.c))
		}
		sb.WriteString(")")
	}
	sb.WriteString(")\n")
}

func (t *Term) String() string {
	switch t.op {
	case OVar:
		return t.name
	case OConst:
		return fmt.Sprintf("%#x", t.k)
	}
	s := "(" + opNames[t.op]
	switch t.op {
	case OExtract:
		s = fmt.Sprintf("(extract[%d+%d]", t.k, t.w)
	case OZExt:
		s = fmt.Sprintf("(zext%d", t.w)
	case OSExt:
		s = fmt.Sprintf("(sext%d", t.w)
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.String()
		}
	}
	return s + ")"
}
