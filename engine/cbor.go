package main

import (
	"go/types"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Model of github.com/fxamacker/cbor/v2 v2.8.0 (default options), written from the library's
// documentation and RFC 8949; selftested against the library natively (engine self-check harness).

type cnode struct {
	major   int
	arg     Value // ints, tag numbers, simple values: C or *Term(64)
	b       []Value
	chunks  [][]Value
	kids    []*cnode
	indef   bool
	prim    int // for major 7
	pv      Value
	content int // major of tag content is kids[0].major
}

const (
	pBool = iota + 1
	pNil
	pSimple
	pF16
	pF32
	pF64
)

type cborErr struct{ msg string }

type cparser struct {
	m   *Machine
	d   []Value
	off int
}

func (p *cparser) fail(s string) { panic(cborErr{s}) }

func (p *cparser) be(n int) Value {
	m := p.m
	if p.off+n > len(p.d) {
		p.fail("unexpected EOF")
	}
	cs := p.d[p.off : p.off+n]
	p.off += n
	if b, ok := concBytes(cs); ok {
		var v uint64
		for _, x := range b {
			v = v<<8 | uint64(x)
		}
		return C(v)
	}
	t := m.T(cs[0], 8)
	for _, x := range cs[1:] {
		t = m.bank.Concat(t, m.T(x, 8))
	}
	return V(m.bank.ZExt(t, 64))
}

// head reads major type, additional information (-1 when < 24 and symbolic) and argument.
func (p *cparser) head() (major int, ai int, arg Value) {
	m := p.m
	if p.off >= len(p.d) {
		p.fail("unexpected EOF")
	}
	b := p.d[p.off]
	p.off++
	if c, ok := b.(C); ok {
		major, ai = int(c>>5), int(c&31)
	} else {
		t := b.(*Term)
		major = int(m.concretize(m.bank.Extract(t, 5, 3)))
		low := m.bank.Extract(t, 0, 5)
		if m.branch(m.bank.Bin(OULT, low, m.bank.Const(24, 5))) {
			return major, -1, V(m.bank.ZExt(low, 64))
		}
		ai = int(m.concretize(low))
	}
	switch {
	case ai < 24:
		return major, ai, C(ai)
	case ai == 24:
		arg = p.be(1)
		if major == 7 && m.branchV(m.ult(arg, 32)) {
			p.fail("cbor: invalid simple value for type primitives")
		}
	case ai == 25:
		arg = p.be(2)
	case ai == 26:
		arg = p.be(4)
	case ai == 27:
		arg = p.be(8)
	case ai == 31:
		switch major {
		case 0, 1, 6:
			p.fail("cbor: invalid additional information 31")
		case 7:
			p.fail("cbor: unexpected \"break\" code")
		}
		arg = C(0)
	default:
		p.fail("cbor: invalid additional information " + strconv.Itoa(ai))
	}
	return
}

func (m *Machine) ult(v Value, k uint64) Value {
	return V(m.bank.Bin(OULT, m.T(v, 64), m.bank.Const(k, 64)))
}

// count concretises a length that must not exceed the remaining input.
func (p *cparser) count(v Value, per int) int {
	m := p.m
	rem := (len(p.d) - p.off) / per
	if c, ok := v.(C); ok {
		if uint64(c) > uint64(rem) {
			p.fail("unexpected EOF")
		}
		return int(c)
	}
	if m.branch(m.bank.Bin(OULT, m.bank.Const(uint64(rem), 64), v.(*Term))) {
		p.fail("unexpected EOF")
	}
	return int(m.concretize(v.(*Term)))
}

func (p *cparser) isBreak() bool {
	if p.off >= len(p.d) {
		p.fail("unexpected EOF")
	}
	if p.m.branchV(p.m.eq(p.d[p.off], C(0xff))) {
		p.off++
		return true
	}
	return false
}

func (p *cparser) item(depth int) *cnode {
	m := p.m
	major, ai, arg := p.head()
	n := &cnode{major: major, arg: arg}
	switch major {
	case 0, 1:
	case 2, 3:
		if ai == 31 {
			n.indef = true
			n.b = []Value{}
			for !p.isBreak() {
				mj, cai, a := p.head()
				if mj != major || cai == 31 {
					p.fail("cbor: wrong element type for indefinite-length string")
				}
				k := p.count(a, 1)
				ch := p.d[p.off : p.off+k]
				n.chunks = append(n.chunks, ch)
				n.b = append(n.b, ch...)
				p.off += k
			}
			break
		}
		k := p.count(arg, 1)
		n.b = p.d[p.off : p.off+k : p.off+k]
		n.chunks = [][]Value{n.b}
		p.off += k
	case 4, 5:
		depth++
		if depth > 32 {
			p.fail("cbor: exceeded max nested level 32")
		}
		per := major - 3
		if ai == 31 {
			n.indef = true
			for !p.isBreak() {
				n.kids = append(n.kids, p.item(depth))
				if major == 5 && len(n.kids)%2 == 1 {
					if p.off < len(p.d) && m.branchV(m.eq(p.d[p.off], C(0xff))) {
						p.fail("cbor: unexpected \"break\" code")
					}
					n.kids = append(n.kids, p.item(depth))
				}
			}
			break
		}
		k := p.count(arg, per) * per
		n.kids = make([]*cnode, 0, k)
		for i := 0; i < k; i++ {
			n.kids = append(n.kids, p.item(depth))
		}
	case 6:
		if p.off < len(p.d) {
			// nested tags count against the depth limit
			depth++
			if depth > 33 {
				p.fail("cbor: exceeded max nested level 32")
			}
		}
		n.kids = []*cnode{p.item(depth)}
	case 7:
		switch ai {
		case 25:
			n.prim, n.pv = pF16, arg
		case 26:
			n.prim, n.pv = pF32, arg
		case 27:
			n.prim, n.pv = pF64, arg
		default:
			if m.branchV(m.orV(m.eq(arg, C(20)), m.eq(arg, C(21)))) {
				n.prim, n.pv = pBool, m.eq(arg, C(21))
			} else if m.branchV(m.orV(m.eq(arg, C(22)), m.eq(arg, C(23)))) {
				n.prim = pNil
			} else {
				n.prim, n.pv = pSimple, arg
			}
		}
	}
	return n
}

func (m *Machine) orV(a, b Value) Value { return V(m.bank.Or(m.BT(a), m.BT(b))) }

func (m *Machine) cborParse(d []Value) (n *cnode, err string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(cborErr); ok {
				n, err = nil, e.msg
				return
			}
			panic(r)
		}
	}()
	if len(d) == 0 {
		return nil, "EOF"
	}
	p := &cparser{m: m, d: d}
	n = p.item(0)
	if p.off != len(d) {
		return nil, "cbor: " + strconv.Itoa(len(d)-p.off) + " bytes of extraneous data starting at index " + strconv.Itoa(p.off)
	}
	return n, ""
}

// ---------- types
type cfield struct {
	idx       int
	name      string
	keyInt    bool
	intName   int64
	omitEmpty bool
	omitZero  bool
	typ       types.Type
}
type cstruct struct {
	toArray bool
	fields  []cfield
}

func cborFields(st *types.Struct) *cstruct {
	r := &cstruct{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		full := reflect.StructTag(st.Tag(i))
		tag := full.Get("cbor")
		if tag == "" {
			tag = full.Get("json")
		}
		if f.Name() == "_" {
			if strings.Contains(full.Get("cbor"), ",toarray") {
				r.toArray = true
			}
			continue
		}
		if tag == "-" {
			continue
		}
		if f.Anonymous() {
			if nm, _, _ := strings.Cut(tag, ","); nm == "" {
				if _, ok := f.Type().Underlying().(*types.Struct); ok {
					panic(unsup("cbor: embedded struct %s", f.Name()))
				}
			}
		}
		if !f.Exported() {
			continue
		}
		parts := strings.Split(tag, ",")
		cf := cfield{idx: i, name: parts[0], typ: f.Type()}
		for _, o := range parts[1:] {
			switch o {
			case "omitempty":
				cf.omitEmpty = true
			case "omitzero":
				cf.omitZero = true
			case "keyasint":
				cf.keyInt = true
			}
		}
		if cf.name == "" {
			cf.name = f.Name()
		}
		if cf.keyInt {
			k, err := strconv.Atoi(cf.name)
			if err != nil {
				panic(unsup("cbor: keyasint %s", cf.name))
			}
			cf.intName = int64(k)
		}
		r.fields = append(r.fields, cf)
	}
	return r
}

type ctag struct {
	t        types.Type
	num      uint64
	enc, dec int
}
type tagSetObj struct{ items []ctag }

func (ts *tagSetObj) find(t types.Type) *ctag {
	if ts == nil {
		return nil
	}
	if _, ok := t.(*types.Named); !ok {
		return nil
	}
	for i := range ts.items {
		if types.Identical(ts.items[i].t, t) {
			return &ts.items[i]
		}
	}
	return nil
}

func (ts *tagSetObj) Call(m *Machine, fr *frame, name string, a []Value) Value {
	switch name {
	case "Add":
		o := a[0].(Struct)
		rt := a[1].(Iface).v.(*NativeV).v.(*rtypeObj)
		if len(a) > 3 {
			if s, ok := a[3].(Slice); ok && len(s) > 0 {
				panic(unsup("cbor: nested tag numbers"))
			}
		}
		t := types.Unalias(rt.t)
		if p, ok := t.(*types.Pointer); ok {
			t = types.Unalias(p.Elem())
		}
		n := uint64(m.concIdx(a[2]))
		for _, x := range ts.items {
			if types.Identical(x.t, t) || x.num == n {
				return m.errorStr("cbor: tag already registered")
			}
		}
		ts.items = append(ts.items, ctag{t: t, num: n, dec: int(m.concIdx(o[0])), enc: int(m.concIdx(o[1]))})
		return Iface{}
	case "Remove":
		rt := a[0].(Iface).v.(*NativeV).v.(*rtypeObj)
		for i, x := range ts.items {
			if types.Identical(x.t, rt.t) {
				ts.items = append(append([]ctag{}, ts.items[:i]...), ts.items[i+1:]...)
				break
			}
		}
		return nil
	}
	panic(unsup("TagSet.%s", name))
}

type cborMode struct {
	tags *tagSetObj
	dec  bool
}

func (c *cborMode) Call(m *Machine, fr *frame, name string, a []Value) Value {
	switch name {
	case "Marshal":
		b, err := m.cborMarshal(c.tags, a[0].(Iface))
		if err != "" {
			return Tuple{Slice(nil), m.errorStr(err)}
		}
		return Tuple{b, Iface{}}
	case "Unmarshal":
		err := m.cborUnmarshal(c.tags, a[0].(Slice), a[1].(Iface))
		if err != "" {
			return m.errorStr(err)
		}
		return Iface{}
	case "Wellformed", "Valid":
		_, err := m.cborParse(a[0].(Slice))
		if err != "" {
			return m.errorStr(err)
		}
		return Iface{}
	}
	panic(unsup("cbor mode method %s", name))
}

// ---------- encode
type cenc struct {
	m    *Machine
	tags *tagSetObj
	out  []Value
}

func (e *cenc) headC(major int, v uint64) {
	h := byte(major << 5)
	put := func(b ...byte) {
		for _, x := range b {
			e.out = append(e.out, C(x))
		}
	}
	switch {
	case v < 24:
		put(h | byte(v))
	case v < 256:
		put(h|24, byte(v))
	case v < 65536:
		put(h|25, byte(v>>8), byte(v))
	case v < 1<<32:
		put(h|26, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	default:
		put(h|27, byte(v>>56), byte(v>>48), byte(v>>40), byte(v>>32), byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	}
}

func (e *cenc) head(major int, v Value) {
	if c, ok := v.(C); ok {
		e.headC(major, uint64(c))
		return
	}
	m := e.m
	t := v.(*Term)
	lt := func(k uint64) bool {
		if t.mx < k {
			return true
		}
		return m.branch(m.bank.Bin(OULT, t, m.bank.Const(k, 64)))
	}
	h := byte(major << 5)
	byteAt := func(i int) Value { return V(m.bank.Extract(t, uint8(8*i), 8)) }
	if lt(24) {
		e.out = append(e.out, V(m.bank.Bin(OOr, m.bank.Extract(t, 0, 8), m.bank.Const(uint64(h), 8))))
		return
	}
	n, ai := 8, byte(27)
	switch {
	case lt(256):
		n, ai = 1, 24
	case lt(65536):
		n, ai = 2, 25
	case lt(1 << 32):
		n, ai = 4, 26
	}
	e.out = append(e.out, C(h|ai))
	for i := n - 1; i >= 0; i-- {
		e.out = append(e.out, byteAt(i))
	}
}

func (e *cenc) nilv() { e.out = append(e.out, C(0xf6)) }

func (m *Machine) cborMarshal(tags *tagSetObj, v Iface) (out Slice, err string) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(cborErr); ok {
				out, err = nil, x.msg
				return
			}
			panic(r)
		}
	}()
	e := &cenc{m: m, tags: tags}
	if v.t == nil {
		e.nilv()
	} else {
		e.enc(v.v, v.t)
	}
	return Slice(e.out), ""
}

func isByteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *cenc) enc(v Value, t types.Type) {
	m := e.m
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if isNilPtr(v) {
			e.nilv()
			return
		}
		pv, ok := v.(*Value)
		if !ok {
			panic(unsup("cbor: encode of %T", v))
		}
		if f := m.eng.lookupMethod(t, nil, "MarshalCBOR"); f != nil {
			panic(unsup("cbor: MarshalCBOR on %s", t))
		}
		e.enc(*pv, p.Elem())
		return
	}
	if n, ok := t.(*types.Named); ok {
		switch n.String() {
		case "math/big.Int", "github.com/fxamacker/cbor/v2.RawMessage", "github.com/fxamacker/cbor/v2.Tag":
			panic(unsup("cbor: encode %s", n))
		case "time.Time":
			tm := m.timeOf(v)
			if tm.IsZero() {
				e.nilv()
			} else {
				e.enc(C(uint64(tm.Unix())), types.Typ[types.Int64])
			}
			return
		}
		if m.eng.lookupMethod(t, nil, "MarshalCBOR") != nil {
			panic(unsup("cbor: MarshalCBOR on %s", t))
		}
		if tg := e.tags.find(t); tg != nil && tg.enc == 1 {
			e.headC(6, tg.num)
		}
		if f := m.eng.lookupMethod(t, nil, "MarshalBinary"); f != nil {
			r := m.callFn(nil, f, []Value{v}, nil).(Tuple)
			if r[1].(Iface).t != nil {
				panic(cborErr{"MarshalBinary failed"})
			}
			b := r[0].(Slice)
			e.headC(2, uint64(len(b)))
			e.out = append(e.out, b...)
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if b, ok := v.(bool); ok {
				e.out = append(e.out, C(0xf4+b2u(b)))
			} else {
				e.out = append(e.out, V(m.bank.Ite(v.(*Term), m.bank.Const(0xf5, 8), m.bank.Const(0xf4, 8))))
			}
		case u.Info()&types.IsInteger != 0:
			w, sg, _ := width(u)
			if c, ok := v.(C); ok {
				if sg && sext(uint64(c), w) < 0 {
					e.headC(1, uint64(-(sext(uint64(c), w) + 1)))
				} else {
					e.headC(0, uint64(c))
				}
				return
			}
			x := v.(*Term)
			if sg {
				x = m.bank.SExt(x, 64)
				if x.mx > math.MaxInt64 && m.branch(m.bank.Bin(OSLT, x, m.bank.Const(0, 64))) {
					e.head(1, V(m.bank.Bin(OXor, x, m.bank.Const(^uint64(0), 64))))
					return
				}
			} else {
				x = m.bank.ZExt(x, 64)
			}
			e.head(0, V(x))
		case u.Info()&types.IsFloat != 0:
			f, ok := v.(float64)
			if !ok {
				panic(unsup("cbor: symbolic float"))
			}
			put := func(h byte, x uint64, n int) {
				e.out = append(e.out, C(h))
				for i := n - 1; i >= 0; i-- {
					e.out = append(e.out, C(byte(x>>(8*i))))
				}
			}
			switch {
			case math.IsNaN(f):
				put(0xf9, 0x7e00, 2)
			case math.IsInf(f, 1):
				put(0xf9, 0x7c00, 2)
			case math.IsInf(f, -1):
				put(0xf9, 0xfc00, 2)
			case u.Kind() == types.Float32:
				put(0xfa, uint64(math.Float32bits(float32(f))), 4)
			default:
				put(0xfb, math.Float64bits(f), 8)
			}
		case u.Info()&types.IsString != 0:
			b := strBytes(v)
			e.headC(3, uint64(len(b)))
			e.out = append(e.out, b...)
		default:
			panic(cborErr{"cbor: unsupported type: " + t.String()})
		}
	case *types.Slice:
		s, _ := v.(Slice)
		if s == nil {
			e.nilv()
			return
		}
		if isByteElem(u.Elem()) {
			e.headC(2, uint64(len(s)))
			e.out = append(e.out, s...)
			return
		}
		e.headC(4, uint64(len(s)))
		for i := range s {
			e.enc(s[i], u.Elem())
		}
	case *types.Array:
		s := v.(Array)
		if isByteElem(u.Elem()) {
			e.headC(2, uint64(len(s)))
			e.out = append(e.out, s...)
			return
		}
		e.headC(4, uint64(len(s)))
		for i := range s {
			e.enc(s[i], u.Elem())
		}
	case *types.Map:
		mp, _ := v.(*MapV)
		if mp == nil {
			e.nilv()
			return
		}
		e.headC(5, uint64(mp.n))
		for _, x := range mp.ents {
			if !x.dead {
				e.enc(x.k, u.Key())
				e.enc(x.v, u.Elem())
			}
		}
	case *types.Interface:
		i, _ := v.(Iface)
		if i.t == nil {
			e.nilv()
			return
		}
		e.enc(i.v, i.t)
	case *types.Struct:
		s := v.(Struct)
		cs := cborFields(u)
		if cs.toArray {
			e.headC(4, uint64(len(cs.fields)))
			for _, f := range cs.fields {
				e.enc(s[f.idx], f.typ)
			}
			return
		}
		save := e.out
		e.out = nil
		n := 0
		for _, f := range cs.fields {
			if f.omitZero {
				panic(unsup("cbor: omitzero"))
			}
			if f.omitEmpty && e.empty(s[f.idx], f.typ) {
				continue
			}
			n++
			if f.keyInt {
				if f.intName >= 0 {
					e.headC(0, uint64(f.intName))
				} else {
					e.headC(1, uint64(-(f.intName + 1)))
				}
			} else {
				e.headC(3, uint64(len(f.name)))
				e.out = append(e.out, strBytes(f.name)...)
			}
			e.enc(s[f.idx], f.typ)
		}
		body := e.out
		e.out = save
		e.headC(5, uint64(n))
		e.out = append(e.out, body...)
	default:
		panic(cborErr{"cbor: unsupported type: " + t.String()})
	}
}

func (e *cenc) empty(v Value, t types.Type) bool {
	m := e.m
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return !m.branchV(v)
		case u.Info()&types.IsInteger != 0:
			return m.branchV(m.eq(v, C(0)))
		case u.Info()&types.IsFloat != 0:
			return v == float64(0)
		case u.Info()&types.IsString != 0:
			return strLen(v) == 0
		}
	case *types.Slice:
		s, _ := v.(Slice)
		return len(s) == 0
	case *types.Array:
		return u.Len() == 0
	case *types.Map:
		mp, _ := v.(*MapV)
		return mp == nil || mp.n == 0
	case *types.Pointer:
		return isNilPtr(v)
	case *types.Interface:
		i, _ := v.(Iface)
		return i.t == nil
	case *types.Struct:
		cs := cborFields(u)
		s := v.(Struct)
		if cs.toArray {
			return len(cs.fields) == 0
		}
		for _, f := range cs.fields {
			if !f.omitEmpty {
				return false
			}
			if !e.empty(s[f.idx], f.typ) {
				return false
			}
		}
		return true
	}
	return false
}

// ---------- decode
type cdec struct {
	m    *Machine
	tags *tagSetObj
}

func (m *Machine) cborUnmarshal(tags *tagSetObj, data Slice, v Iface) string {
	n, err := m.cborParse(data)
	if err != "" {
		return err
	}
	if v.t == nil {
		return "cbor: Unmarshal(nil)"
	}
	pt, ok := v.t.Underlying().(*types.Pointer)
	if !ok {
		return "cbor: Unmarshal(non-pointer " + v.t.String() + ")"
	}
	if isNilPtr(v.v) {
		return "cbor: Unmarshal(nil " + v.t.String() + ")"
	}
	p, ok := v.v.(*Value)
	if !ok {
		panic(unsup("cbor: Unmarshal into %T", v.v))
	}
	d := &cdec{m: m, tags: tags}
	return d.val(n, p, pt.Elem())
}

func cborTypeName(n *cnode) string {
	return [...]string{"positive integer", "negative integer", "byte string", "UTF-8 text string", "array", "map", "tag", "primitives"}[n.major]
}

func (d *cdec) typeErr(n *cnode, t types.Type, extra string) string {
	return "cbor: cannot unmarshal " + cborTypeName(n) + " into Go value of type " + t.String() + extra
}

func (d *cdec) tagNum(n *cnode) uint64 {
	switch x := n.arg.(type) {
	case C:
		return uint64(x)
	case *Term:
		// keep the interesting numbers apart, lump the rest
		for _, k := range []uint64{0, 1, 2, 3, 16, 17, 18, 21, 22, 23, 55799} {
			if d.m.branchV(d.m.eq(x, C(k))) {
				return k
			}
		}
		return 1 << 62
	}
	return 0
}

func (d *cdec) builtinTagOK(num uint64, c *cnode) string {
	switch num {
	case 0:
		if c.major != 3 {
			return "cbor: tag number 0 must be followed by text string, got " + cborTypeName(c)
		}
	case 1:
		if c.major != 0 && c.major != 1 && !(c.major == 7 && c.prim >= pF16) {
			return "cbor: tag number 1 must be followed by integer or floating-point number, got " + cborTypeName(c)
		}
	case 2, 3:
		if c.major != 2 {
			return "cbor: tag number 2 or 3 must be followed by byte string, got " + cborTypeName(c)
		}
	}
	return ""
}

func (d *cdec) val(n *cnode, p *Value, t types.Type) string {
	m := d.m
	t = types.Unalias(t)
	isNil := n.major == 7 && n.prim == pNil
	if _, ok := t.Underlying().(*types.Pointer); ok && isNil {
		m.setCell(p, (*Value)(nil))
		return ""
	}
	if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
		panic(unsup("cbor: decode into interface %s", t))
	}
	for {
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		t = types.Unalias(pt.Elem())
		if isNilPtr(*p) {
			np := new(Value)
			*np = m.zero(t)
			m.setCell(p, np)
			p = np
		} else {
			p = (*p).(*Value)
		}
	}
	for n.major == 6 && d.tagNum(n) == 55799 {
		n = n.kids[0]
	}
	for c := n; c.major == 6; c = c.kids[0] {
		if e := d.builtinTagOK(d.tagNum(c), c.kids[0]); e != "" {
			return e
		}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		iv, err := d.any(n, false)
		if iv.t != nil {
			m.setCell(p, iv)
		}
		return err
	}
	if nt, ok := t.(*types.Named); ok {
		switch nt.String() {
		case "time.Time":
			if isNil {
				return ""
			}
			if n.major > 1 {
				panic(unsup("cbor: decode into time.Time"))
			}
			sec := int64(m.concIdx(n.arg))
			if n.major == 1 {
				sec = ^sec
			}
			m.store(p, m.timeToStruct(unixTime(sec)))
			return ""
		case "math/big.Int", "github.com/fxamacker/cbor/v2.Tag", "github.com/fxamacker/cbor/v2.RawMessage":
			panic(unsup("cbor: decode into %s", nt))
		}
		if m.eng.lookupMethod(types.NewPointer(t), nil, "UnmarshalCBOR") != nil || m.eng.lookupMethod(types.NewPointer(t), nil, "UnmarshalBinary") != nil {
			panic(unsup("cbor: decode into %s with a custom decoder", nt))
		}
		if tg := d.tags.find(t); tg != nil && tg.dec != 0 {
			if n.major != 6 {
				if tg.dec == 2 {
					return d.typeErr(n, t, " (expect CBOR tag value)")
				}
			} else {
				ok := d.tagNumIs(n, tg.num) && n.kids[0].major != 6
				for n.major == 6 {
					n = n.kids[0]
				}
				if !ok {
					return "cbor: wrong tag number for " + t.String()
				}
			}
		}
	}
	switch n.major {
	case 0:
		return d.posInt(n, n.arg, p, t)
	case 1:
		if m.branchV(m.notV(m.ult(n.arg, 1<<63))) {
			return d.typeErr(n, t, " (overflows Go's int64)")
		}
		return d.negInt(n, V(m.bank.Bin(OXor, m.T(n.arg, 64), m.bank.Const(^uint64(0), 64))), p, t)
	case 2:
		return d.byteString(n, n.b, p, t)
	case 3:
		if e := d.text(n); e != "" {
			return e
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			m.setCell(p, mkStr(n.b))
			return ""
		}
		return d.typeErr(n, t, "")
	case 7:
		switch n.prim {
		case pBool:
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				m.setCell(p, n.pv)
				return ""
			}
			return d.typeErr(n, t, "")
		case pNil:
			switch t.Underlying().(type) {
			case *types.Slice, *types.Map:
				m.setCell(p, m.zero(t))
			}
			return ""
		case pSimple:
			return d.posInt(n, n.pv, p, t)
		}
		f := d.float(n)
		b, ok := t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsFloat == 0 {
			return d.typeErr(n, t, "")
		}
		if b.Kind() == types.Float32 && reflect.ValueOf(float32(0)).OverflowFloat(f) {
			return d.typeErr(n, t, " (overflow)")
		}
		m.setCell(p, f)
		return ""
	case 6:
		num := d.tagNum(n)
		if num == 2 || num == 3 {
			c := n.kids[0]
			switch t.Underlying().(type) {
			case *types.Slice, *types.Array:
				return d.byteString(n, c.b, p, t)
			}
			b := m.concAll(c.b)
			bi := new(big.Int).SetBytes(b)
			if num == 2 {
				if bi.IsUint64() {
					return d.posInt(n, C(bi.Uint64()), p, t)
				}
			} else {
				bi.Add(bi, big.NewInt(1))
				bi.Neg(bi)
				if bi.IsInt64() {
					return d.negInt(n, C(uint64(bi.Int64())), p, t)
				}
			}
			return d.typeErr(n, t, " (overflow)")
		}
		return d.val(n.kids[0], p, t)
	case 4:
		switch u := t.Underlying().(type) {
		case *types.Slice:
			s, _ := (*p).(Slice)
			cnt := len(n.kids)
			if s == nil || cap(s) < cnt || cnt == 0 {
				s = make(Slice, cnt)
				for i := range s {
					s[i] = m.zero(u.Elem())
				}
			}
			s = s[:cnt]
			for i := range s {
				if s[i] == nil {
					s[i] = m.zero(u.Elem())
				}
			}
			m.setCell(p, s)
			err := ""
			for i, k := range n.kids {
				if e := d.val(k, &s[i], u.Elem()); e != "" && err == "" {
					err = e
				}
			}
			return err
		case *types.Array:
			a := (*p).(Array)
			err := ""
			for i := range a {
				if i < len(n.kids) {
					if e := d.val(n.kids[i], &a[i], u.Elem()); e != "" && err == "" {
						err = e
					}
				} else {
					m.store(&a[i], m.zero(u.Elem()))
				}
			}
			return err
		case *types.Struct:
			cs := cborFields(u)
			if !cs.toArray {
				return d.typeErr(n, t, " (cannot decode CBOR array to struct without toarray option)")
			}
			if len(n.kids) != len(cs.fields) {
				return d.typeErr(n, t, " (cannot decode CBOR array to struct with different number of elements)")
			}
			s := (*p).(Struct)
			err := ""
			for i, f := range cs.fields {
				if e := d.val(n.kids[i], &s[f.idx], f.typ); e != "" && err == "" {
					err = e
				}
			}
			return err
		}
		return d.typeErr(n, t, "")
	case 5:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			return d.mapToStruct(n, p, t, u)
		case *types.Map:
			mp, _ := (*p).(*MapV)
			if mp == nil {
				mp = newMap()
				m.setCell(p, mp)
			}
			err := ""
			note := func(e string) bool {
				if e == "" {
					return false
				}
				if err == "" {
					err = e
				}
				return true
			}
			_, keyIface := u.Key().Underlying().(*types.Interface)
			for i := 0; i+1 < len(n.kids); i += 2 {
				var k, v Value = m.zero(u.Key()), m.zero(u.Elem())
				if note(d.val(n.kids[i], &k, u.Key())) {
					continue
				}
				if keyIface {
					if ki := k.(Iface); ki.t != nil && !types.Comparable(ki.t) {
						note("cbor: invalid map key type: " + ki.t.String())
						continue
					}
				}
				if note(d.val(n.kids[i+1], &v, u.Elem())) {
					continue
				}
				m.mapSet(mp, k, v)
			}
			return err
		}
		return d.typeErr(n, t, "")
	}
	return ""
}

func (d *cdec) tagNumIs(n *cnode, num uint64) bool {
	return d.m.branchV(d.m.eq(n.arg, C(num)))
}

func (m *Machine) concAll(b []Value) []byte {
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(m.concIdx(x))
	}
	return r
}

func (d *cdec) text(n *cnode) string {
	m := d.m
	for _, ch := range n.chunks {
		if b, ok := concBytes(ch); ok {
			if !utf8.Valid(b) {
				return "cbor: invalid UTF-8 string"
			}
			continue
		}
		ascii := Value(true)
		for _, x := range ch {
			ascii = m.andV(ascii, V(m.bank.Bin(OULT, m.T(x, 8), m.bank.Const(0x80, 8))))
		}
		if m.branchV(ascii) {
			continue
		}
		if !utf8.Valid(m.concAll(ch)) {
			return "cbor: invalid UTF-8 string"
		}
	}
	return ""
}

func (d *cdec) float(n *cnode) float64 {
	v := uint64(d.m.concIdx(n.pv))
	switch n.prim {
	case pF16:
		return f16(uint16(v))
	case pF32:
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func f16(h uint16) float64 {
	s := 1.0
	if h&0x8000 != 0 {
		s = -1
	}
	e, f := int(h>>10)&31, float64(h&0x3ff)
	switch e {
	case 0:
		return s * math.Ldexp(f, -24)
	case 31:
		if f == 0 {
			return math.Inf(int(s))
		}
		return math.NaN()
	}
	return s * math.Ldexp(f+1024, e-25)
}

func (d *cdec) posInt(n *cnode, v Value, p *Value, t types.Type) string {
	m := d.m
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return d.typeErr(n, t, "")
	}
	switch {
	case b.Info()&types.IsInteger != 0:
		w, sg, _ := width(b)
		lim := mask(w)
		if sg {
			lim >>= 1
		}
		if lim != ^uint64(0) && m.branchV(m.notV(m.ult(v, lim+1))) {
			return d.typeErr(n, t, " (overflows)")
		}
		if w == 64 {
			m.setCell(p, v)
		} else if c, ok := v.(C); ok {
			m.setCell(p, C(uint64(c)&mask(w)))
		} else {
			m.setCell(p, V(m.bank.Extract(v.(*Term), 0, w)))
		}
		return ""
	case b.Info()&types.IsFloat != 0:
		f := float64(uint64(m.concIdx(v)))
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		m.setCell(p, f)
		return ""
	}
	return d.typeErr(n, t, "")
}

func (d *cdec) negInt(n *cnode, v Value, p *Value, t types.Type) string {
	m := d.m
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return d.typeErr(n, t, "")
	}
	switch {
	case b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0:
		w, _, _ := width(b)
		if w < 64 {
			lo := uint64(-(int64(1) << (w - 1)))
			if m.branchV(V(m.bank.Bin(OSLT, m.T(v, 64), m.bank.Const(lo, 64)))) {
				return d.typeErr(n, t, " (overflows)")
			}
			m.setCell(p, V(m.bank.Extract(m.T(v, 64), 0, w)))
			return ""
		}
		m.setCell(p, v)
		return ""
	case b.Info()&types.IsFloat != 0:
		m.setCell(p, float64(m.concInt(v, 64, true)))
		return ""
	}
	return d.typeErr(n, t, "")
}

func (d *cdec) byteString(n *cnode, b []Value, p *Value, t types.Type) string {
	m := d.m
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isByteElem(u.Elem()) {
			s := make(Slice, len(b))
			copy(s, b)
			m.setCell(p, s)
			return ""
		}
	case *types.Array:
		if isByteElem(u.Elem()) {
			a := (*p).(Array)
			for i := range a {
				if i < len(b) {
					m.setCell(&a[i], b[i])
				} else {
					m.setCell(&a[i], C(0))
				}
			}
			return ""
		}
	}
	return d.typeErr(n, t, "")
}

func (d *cdec) mapToStruct(n *cnode, p *Value, t types.Type, st *types.Struct) string {
	m := d.m
	cs := cborFields(st)
	if cs.toArray {
		return d.typeErr(n, t, " (cannot decode CBOR map to struct with toarray option)")
	}
	s := (*p).(Struct)
	found := make([]bool, len(cs.fields))
	err := ""
	note := func(e string) {
		if err == "" {
			err = e
		}
	}
	for i := 0; i+1 < len(n.kids); i += 2 {
		k, v := n.kids[i], n.kids[i+1]
		hit := -1
		dup := false
		switch k.major {
		case 3:
			if e := d.text(k); e != "" {
				note(e)
				continue
			}
			for j, f := range cs.fields {
				if f.keyInt {
					continue
				}
				if m.branchV(m.bytesEq(k.b, strBytes(f.name))) {
					if found[j] {
						dup = true
					} else {
						hit = j
					}
					break
				}
			}
			if hit < 0 && !dup {
				for j, f := range cs.fields {
					if len(f.name) != len(k.b) {
						continue
					}
					if m.branchV(m.foldEq(k.b, f.name)) {
						if found[j] {
							dup = true
						} else {
							hit = j
						}
						break
					}
				}
			}
		case 0, 1:
			key := k.arg
			if k.major == 1 {
				if m.branchV(m.notV(m.ult(k.arg, 1<<63))) {
					note("cbor: cannot unmarshal negative integer into Go value of type int64")
					continue
				}
				key = V(m.bank.Bin(OXor, m.T(k.arg, 64), m.bank.Const(^uint64(0), 64)))
			}
			for j, f := range cs.fields {
				if f.keyInt && m.branchV(m.eq(key, C(uint64(f.intName)))) {
					if found[j] {
						dup = true
					} else {
						hit = j
					}
					break
				}
			}
		default:
			note("cbor: map key is of type " + cborTypeName(k) + " and cannot be used to match struct field name")
			continue
		}
		if dup || hit < 0 {
			continue
		}
		found[hit] = true
		f := cs.fields[hit]
		if e := d.val(v, &s[f.idx], f.typ); e != "" {
			note(e)
		}
	}
	return err
}

func (m *Machine) foldEq(b []Value, name string) Value {
	var acc Value = true
	for i, x := range b {
		c := name[i]
		lc := c | 0x20
		if lc >= 'a' && lc <= 'z' {
			acc = m.andV(acc, m.orV(m.eq(x, C(lc)), m.eq(x, C(lc&^0x20))))
		} else {
			acc = m.andV(acc, m.eq(x, C(c)))
		}
		if acc == false {
			return false
		}
	}
	return acc
}

// any decodes into an empty interface.
func (d *cdec) any(n *cnode, strip bool) (Iface, string) {
	m := d.m
	if strip {
		for n.major == 6 && d.tagNum(n) == 55799 {
			n = n.kids[0]
		}
	}
	for c := n; c.major == 6; c = c.kids[0] {
		if e := d.builtinTagOK(d.tagNum(c), c.kids[0]); e != "" {
			return Iface{}, e
		}
	}
	switch n.major {
	case 0:
		return Iface{types.Typ[types.Uint64], n.arg}, ""
	case 1:
		if m.branchV(m.notV(m.ult(n.arg, 1<<63))) {
			bi := new(big.Int).SetUint64(uint64(m.concIdx(n.arg)))
			bi.Add(bi, big.NewInt(1))
			bi.Neg(bi)
			return Iface{m.eng.typeByName("math/big", "Int"), m.bigToStruct(bi)}, ""
		}
		return Iface{types.Typ[types.Int64], V(m.bank.Bin(OXor, m.T(n.arg, 64), m.bank.Const(^uint64(0), 64)))}, ""
	case 2:
		s := make(Slice, len(n.b))
		copy(s, n.b)
		return Iface{types.NewSlice(types.Typ[types.Uint8]), s}, ""
	case 3:
		if e := d.text(n); e != "" {
			return Iface{}, e
		}
		return Iface{types.Typ[types.String], mkStr(n.b)}, ""
	case 4:
		at := types.Universe.Lookup("any").Type()
		s := make(Slice, len(n.kids))
		err := ""
		for i, k := range n.kids {
			v, e := d.any(k, true)
			if e != "" {
				if err == "" {
					err = e
				}
				s[i] = Iface{}
				continue
			}
			s[i] = v
		}
		return Iface{types.NewSlice(at), s}, err
	case 5:
		at := types.Universe.Lookup("any").Type()
		mp := newMap()
		err := ""
		for i := 0; i+1 < len(n.kids); i += 2 {
			k, e := d.any(n.kids[i], true)
			if e == "" && k.t != nil && !types.Comparable(k.t) {
				e = "cbor: invalid map key type: " + k.t.String()
			}
			if e != "" {
				if err == "" {
					err = e
				}
				continue
			}
			v, e := d.any(n.kids[i+1], true)
			if e != "" {
				if err == "" {
					err = e
				}
				continue
			}
			m.mapSet(mp, k, v)
		}
		return Iface{types.NewMap(at, at), mp}, err
	case 6:
		num := d.tagNum(n)
		switch num {
		case 0, 1:
			panic(unsup("cbor: time tag into interface"))
		case 2, 3:
			bi := new(big.Int).SetBytes(m.concAll(n.kids[0].b))
			if num == 3 {
				bi.Add(bi, big.NewInt(1))
				bi.Neg(bi)
			}
			return Iface{m.eng.typeByName("math/big", "Int"), m.bigToStruct(bi)}, ""
		}
		if n.kids[0].major != 6 && d.tags != nil {
			for _, x := range d.tags.items {
				if x.dec != 0 && d.tagNumIs(n, x.num) {
					var v Value = m.zero(x.t)
					if e := d.val(n, &v, x.t); e != "" {
						return Iface{}, e
					}
					return Iface{x.t, v}, ""
				}
			}
		}
		c, e := d.any(n.kids[0], false)
		if e != "" {
			return Iface{}, e
		}
		return Iface{m.eng.typeByName("github.com/fxamacker/cbor/v2", "Tag"), Struct{n.arg, c}}, ""
	case 7:
		switch n.prim {
		case pBool:
			return Iface{types.Typ[types.Bool], n.pv}, ""
		case pNil:
			return Iface{}, ""
		case pSimple:
			v := n.pv
			if t, ok := v.(*Term); ok {
				v = V(m.bank.Extract(t, 0, 8))
			}
			return Iface{m.eng.typeByName("github.com/fxamacker/cbor/v2", "SimpleValue"), v}, ""
		}
		return Iface{types.Typ[types.Float64], d.float(n)}, ""
	}
	return Iface{}, ""
}

func initCBOR() {
	const pk = "github.com/fxamacker/cbor/v2"
	zeroOpts := func(v Value) bool {
		for _, x := range v.(Struct) {
			switch y := x.(type) {
			case C:
				if y != 0 {
					return false
				}
			case bool:
				if y {
					return false
				}
			case Iface:
				if y.t != nil {
					return false
				}
			case *Value:
				if y != nil {
					return false
				}
			}
		}
		return true
	}
	tagsOf := func(v Value) *tagSetObj {
		i := v.(Iface)
		if i.t == nil {
			return nil
		}
		ts := i.v.(*NativeV).v.(*tagSetObj)
		return &tagSetObj{append([]ctag{}, ts.items...)}
	}
	mode := func(dec, tags bool) Intrinsic {
		return func(m *Machine, fr *frame, a []Value) Value {
			if !zeroOpts(a[0]) {
				panic(unsup("cbor options other than the defaults"))
			}
			c := &cborMode{dec: dec}
			if tags {
				c.tags = tagsOf(a[1])
				if c.tags == nil {
					return Tuple{Iface{}, m.errorStr("cbor: cannot create mode with nil value as TagSet")}
				}
			}
			return Tuple{m.nativeIface(c), Iface{}}
		}
	}
	for _, x := range []struct {
		n   string
		dec bool
	}{{"Enc", false}, {"Dec", true}} {
		for _, w := range []string{"ModeWithTags", "ModeWithSharedTags", "Mode"} {
			intrinsics["("+pk+"."+x.n+"Options)."+x.n+w] = mode(x.dec, w != "Mode")
		}
	}
	intrinsics[pk+".NewTagSet"] = func(m *Machine, fr *frame, a []Value) Value { return m.nativeIface(&tagSetObj{}) }
	intrinsics[pk+".Marshal"] = func(m *Machine, fr *frame, a []Value) Value {
		return (&cborMode{}).Call(m, fr, "Marshal", a)
	}
	intrinsics[pk+".Unmarshal"] = func(m *Machine, fr *frame, a []Value) Value {
		return (&cborMode{dec: true}).Call(m, fr, "Unmarshal", a)
	}
	intrinsics[pk+".Wellformed"] = func(m *Machine, fr *frame, a []Value) Value {
		return (&cborMode{dec: true}).Call(m, fr, "Wellformed", a)
	}
}
