package main

import (
	"fmt"
	"go/types"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: C, bool, *Term, float64, string, *SStr, Struct, Array, Slice, *Value (pointer), *SymPtr,
// *MapV, Iface, *ssa.Function, *Closure, *ssa.Builtin, Tuple, *ChanV, *NativeV, *rangeIter, complex128
type Value interface{}

type C uint64 // concrete integer, masked to its width
type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value
type SStr struct{ b []Value }
type SymPtr struct {
	cells []Value
	idx   *Term
}
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type NativeV struct {
	v any
}
type ChanV struct {
	buf    []Value
	cap    int
	closed bool
}
type mapEnt struct {
	k, v Value
	cell Value
	dead bool
}
type MapV struct {
	idx  map[any]int
	ents []*mapEnt
	n    int
	nsym int
}
type rangeIter struct {
	m   *MapV
	pos int
	str []Value
	s   string
	isS bool
}

func isNilPtr(v Value) bool {
	switch p := v.(type) {
	case *Value:
		return p == nil
	case *NativeV:
		return p == nil
	case nil:
		return true
	}
	return false
}

func width(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func (m *Machine) zero(t types.Type) Value {
	switch u := t.(type) {
	case *types.Tuple:
		if u.Len() == 1 {
			return m.zero(u.At(0).Type())
		}
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = m.zero(u.At(i).Type())
		}
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return C(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UntypedNil:
			return (*Value)(nil)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		n := int(u.Len())
		r := make(Array, n)
		if n > 0 {
			z := m.zero(u.Elem())
			switch z.(type) {
			case Struct, Array:
				r[0] = z
				for i := 1; i < n; i++ {
					r[i] = m.zero(u.Elem())
				}
			default:
				for i := range r {
					r[i] = z
				}
			}
		}
		return r
	case *types.Struct:
		r := make(Struct, u.NumFields())
		for i := range r {
			r[i] = m.zero(u.Field(i).Type())
		}
		return r
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	}
	panic(unsup("zero of %s", t))
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i, e := range x {
			r[i] = copyVal(e)
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				r[i] = copyVal(e)
			default:
				r[i] = e
			}
		}
		return r
	}
	return v
}

type undo struct {
	p   *Value
	old Value
	f   func()
}

func (m *Machine) setCell(p *Value, v Value) {
	if m.trailOn {
		m.trail = append(m.trail, undo{p: p, old: *p})
	}
	*p = v
}

func (m *Machine) store(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(x) {
			if len(x) > 0 && &old[0] == &x[0] {
				return
			}
			for i := range x {
				m.store(&old[i], x[i])
			}
			return
		}
		m.setCell(p, copyVal(v))
		return
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(x) {
			if len(x) > 0 && &old[0] == &x[0] {
				return
			}
			// guard against overlapping aliasing: copy first
			for i := range x {
				m.store(&old[i], x[i])
			}
			return
		}
		m.setCell(p, copyVal(v))
		return
	}
	m.setCell(p, v)
}

func (m *Machine) undoTrail() {
	for i := len(m.trail) - 1; i >= 0; i-- {
		u := &m.trail[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		m.trail[i] = undo{}
	}
	m.trail = m.trail[:0]
}

// ---------- terms from values
func (m *Machine) T(v Value, w uint8) *Term {
	switch x := v.(type) {
	case C:
		return m.bank.Const(uint64(x), w)
	case *Term:
		if x.w != w {
			panic(unsup("internal: term width %d, want %d", x.w, w))
		}
		return x
	case bool:
		return m.bank.Bool(x)
	}
	panic(unsup("internal: T of %T", v))
}
func (m *Machine) BT(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return m.bank.Bool(x)
	case *Term:
		return x
	}
	panic(unsup("internal: BT of %T", v))
}

// V turns a term back into a value, concretising constants.
func V(t *Term) Value {
	if t.op == OConst {
		if t.w == 0 {
			return t.k == 1
		}
		return C(t.k)
	}
	return t
}

// ---------- strings
func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(unsup("strLen of %T", v))
}
func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = C(s[i])
		}
		return r
	case *SStr:
		return s.b
	}
	panic(unsup("strBytes of %T", v))
}
func mkStr(b []Value) Value {
	buf := make([]byte, len(b))
	for i, x := range b {
		c, ok := x.(C)
		if !ok {
			cp := make([]Value, len(b))
			copy(cp, b)
			return &SStr{cp}
		}
		buf[i] = byte(c)
	}
	return string(buf)
}
func bytesToSlice(b []byte) Slice {
	if b == nil {
		return nil
	}
	r := make(Slice, len(b))
	for i, x := range b {
		r[i] = C(x)
	}
	return r
}

// concBytes returns concrete bytes if all are concrete.
func concBytes(b []Value) ([]byte, bool) {
	buf := make([]byte, len(b))
	for i, x := range b {
		c, ok := x.(C)
		if !ok {
			return nil, false
		}
		buf[i] = byte(c)
	}
	return buf, true
}

// placeholder rendering for logging/formatting
func renderBytes(b []Value) string {
	var sb strings.Builder
	for _, x := range b {
		if c, ok := x.(C); ok {
			sb.WriteByte(byte(c))
		} else {
			sb.WriteByte('?')
		}
	}
	return sb.String()
}

// ---------- equality
func (m *Machine) bytesEq(a, b []Value) Value {
	if len(a) != len(b) {
		return false
	}
	acc := m.bank.True()
	for i := range a {
		ca, oka := a[i].(C)
		cb, okb := b[i].(C)
		if oka && okb {
			if ca != cb {
				return false
			}
			continue
		}
		acc = m.bank.And(acc, m.bank.Eq(m.T(a[i], 8), m.T(b[i], 8)))
		if acc.isC() && acc.k == 0 {
			return false
		}
	}
	return V(acc)
}

func (m *Machine) andV(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if x, ok := b.(bool); ok {
		if !x {
			return false
		}
		return a
	}
	return V(m.bank.And(a.(*Term), b.(*Term)))
}
func (m *Machine) notV(a Value) Value {
	if x, ok := a.(bool); ok {
		return !x
	}
	return V(m.bank.Not(a.(*Term)))
}

// eq returns a bool or *Term.
func (m *Machine) eq(a, b Value) Value {
	switch x := a.(type) {
	case C:
		switch y := b.(type) {
		case C:
			return x == y
		case *Term:
			return V(m.bank.Eq(y, m.bank.Const(uint64(x), y.w)))
		}
	case bool:
		switch y := b.(type) {
		case bool:
			return x == y
		case *Term:
			if x {
				return V(y)
			}
			return V(m.bank.Not(y))
		}
	case *Term:
		switch y := b.(type) {
		case C, bool:
			return m.eq(b, a)
		case *Term:
			return V(m.bank.Eq(x, y))
		}
	case string:
		switch y := b.(type) {
		case string:
			return x == y
		case *SStr:
			return m.bytesEq(strBytes(x), y.b)
		}
	case *SStr:
		return m.bytesEq(x.b, strBytes(b))
	case float64:
		return x == b.(float64)
	case complex128:
		return x == b.(complex128)
	case Struct:
		y := b.(Struct)
		var acc Value = true
		for i := range x {
			acc = m.andV(acc, m.eq(x[i], y[i]))
			if acc == false {
				return false
			}
		}
		return acc
	case Array:
		y := b.(Array)
		var acc Value = true
		for i := range x {
			acc = m.andV(acc, m.eq(x[i], y[i]))
			if acc == false {
				return false
			}
		}
		return acc
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(unsup("iface eq with %T", b))
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		return m.eqIface(x, y)
	case *Value:
		if isNilPtr(a) && isNilPtr(b) {
			return true
		}
		if y, ok := b.(*Value); ok {
			return x == y
		}
		return false
	case *NativeV:
		if isNilPtr(a) && isNilPtr(b) {
			return true
		}
		y, ok := b.(*NativeV)
		return ok && (x == y || x.v == y.v)
	case *MapV:
		y, _ := b.(*MapV)
		return x == y
	case *ChanV:
		y, _ := b.(*ChanV)
		return x == y
	case Slice:
		return x == nil && isNilSlice(b)
	case *ssa.Function:
		switch y := b.(type) {
		case *ssa.Function:
			return x == y
		case *Closure:
			return x == nil && y == nil
		}
		return false
	case *Closure:
		if y, ok := b.(*ssa.Function); ok && y == nil {
			return x == nil
		}
		if y, ok := b.(*Closure); ok {
			return x == y
		}
		return false
	case *ssa.Builtin:
		return false
	case *SymPtr:
		return false
	case nil:
		return isNilPtr(b)
	}
	panic(unsup("eq of %T and %T", a, b))
}

func (m *Machine) eqIface(x, y Iface) Value {
	switch x.v.(type) {
	case Slice, *MapV, *ssa.Function, *Closure:
		panic(m.rtPanic("comparing uncomparable type " + x.t.String()))
	}
	return m.eq(x.v, y.v)
}

func isNilSlice(v Value) bool {
	s, ok := v.(Slice)
	return ok && s == nil
}

// ---------- maps
func newMap() *MapV { return &MapV{idx: map[any]int{}} }

func hashKey(v Value) (any, bool) {
	switch x := v.(type) {
	case C:
		return uint64(x), true
	case bool, string, float64, *Value, *ChanV:
		return x, true
	case *NativeV:
		return x, true
	case *Term, *SStr, *SymPtr:
		return nil, false
	case Struct, Array:
		var sb strings.Builder
		var l []Value
		if s, ok := x.(Struct); ok {
			l = s
		} else {
			l = x.(Array)
		}
		for _, e := range l {
			k, ok := hashKey(e)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return "§" + sb.String(), true
	case Iface:
		if x.t == nil {
			return "§nil", true
		}
		k, ok := hashKey(x.v)
		if !ok {
			return nil, false
		}
		return fmt.Sprintf("§%s:%T:%v", x.t.String(), k, k), true
	}
	return nil, false
}

func (m *Machine) mapFind(mp *MapV, k Value) *mapEnt {
	if mp == nil {
		return nil
	}
	h, conc := hashKey(k)
	if conc {
		if i, ok := mp.idx[h]; ok {
			return mp.ents[i]
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, c := hashKey(e.k); c {
				continue
			}
		}
		if m.branchV(m.eq(e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *MapV, k, v Value) {
	if mp == nil {
		panic(m.rtPanic("assignment to entry in nil map"))
	}
	e := m.mapFind(mp, k)
	if e != nil {
		if m.trailOn {
			old := e.v
			m.trail = append(m.trail, undo{f: func() { e.v = old }})
		}
		e.v = copyVal(v)
		return
	}
	e = &mapEnt{k: copyVal(k), v: copyVal(v)}
	h, conc := hashKey(k)
	mp.ents = append(mp.ents, e)
	if conc {
		mp.idx[h] = len(mp.ents) - 1
	} else {
		mp.nsym++
	}
	mp.n++
	if m.trailOn {
		m.trail = append(m.trail, undo{f: func() {
			mp.ents = mp.ents[:len(mp.ents)-1]
			if conc {
				delete(mp.idx, h)
			} else {
				mp.nsym--
			}
			mp.n--
		}})
	}
}

func (m *Machine) mapDelete(mp *MapV, k Value) {
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	h, conc := hashKey(e.k)
	pos := -1
	if conc {
		pos = mp.idx[h]
		delete(mp.idx, h)
	} else {
		mp.nsym--
	}
	e.dead = true
	mp.n--
	if m.trailOn {
		m.trail = append(m.trail, undo{f: func() {
			e.dead = false
			if conc {
				mp.idx[h] = pos
			} else {
				mp.nsym++
			}
			mp.n++
		}})
	}
}

func unsafeSlice(p *Value, n int) Slice {
	if n == 0 {
		return Slice{}
	}
	return Slice(unsafe.Slice(p, n))
}

type unsupported struct{ msg, stack string }

func unsup(f string, a ...any) unsupported { return unsupported{msg: fmt.Sprintf(f, a...)} }
