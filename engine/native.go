package main

import (
	"crypto/elliptic"
	"errors"
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type fallThrough struct{}

// errSymbolic aborts a conversion because a value is symbolic.
type errSymbolic struct{}

var (
	tBigInt   = reflect.TypeOf(big.Int{})
	tTime     = reflect.TypeOf(time.Time{})
	tError    = reflect.TypeOf((*error)(nil)).Elem()
	tLocation = reflect.TypeOf(time.Location{})
)

// opaque pointers: native objects that interpreted code only passes around
var opaqueTypes = map[string]bool{}

func (e *Engine) initNatives() {}

func (m *Machine) wrapNative(fn *ssa.Function, nf any, hasBody bool) Intrinsic {
	rv := reflect.ValueOf(nf)
	rt := rv.Type()
	sig := fn.Signature
	return func(m *Machine, fr *frame, args []Value) (res Value) {
		in := make([]reflect.Value, len(args))
		sym := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(errSymbolic); ok {
						sym = true
						return
					}
					panic(r)
				}
			}()
			memo := map[*Value]reflect.Value{}
			for i, a := range args {
				var t reflect.Type
				if rt.IsVariadic() && i == rt.NumIn()-1 {
					t = rt.In(i)
				} else {
					t = rt.In(i)
				}
				in[i] = reflect.New(t).Elem()
				m.toNative(a, in[i], memo)
			}
		}()
		if sym {
			if hasBody {
				return fallThrough{}
			}
			panic(unsup("symbolic argument to native %s", fn))
		}
		var out []reflect.Value
		func() {
			defer func() {
				if r := recover(); r != nil {
					msg := fmt.Sprint(r)
					panic(targetPanic{v: Iface{types.Typ[types.String], msg}, msg: msg, pos: m.posOf(fr)})
				}
			}()
			if rt.IsVariadic() {
				out = rv.CallSlice(in)
			} else {
				out = rv.Call(in)
			}
		}()
		rs := sig.Results()
		conv := func(i int) Value { return m.toInterp(out[i], rs.At(i).Type(), map[uintptr]*Value{}) }
		switch len(out) {
		case 0:
			return nil
		case 1:
			return conv(0)
		}
		r := make(Tuple, len(out))
		for i := range out {
			r[i] = conv(i)
		}
		return r
	}
}

func conc(v Value) uint64 {
	switch x := v.(type) {
	case C:
		return uint64(x)
	case *Term:
		panic(errSymbolic{})
	}
	panic(unsup("native conversion of %T", v))
}

func writable(f reflect.Value) reflect.Value {
	if f.CanSet() {
		return f
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

// nativeErr wraps an interpreted error.
type nativeErr struct {
	msg string
	v   Iface
}

func (e *nativeErr) Error() string { return e.msg }

func (m *Machine) bigOf(v Value) *big.Int {
	p, ok := v.(*Value)
	if !ok || p == nil {
		return nil
	}
	return m.bigOfStruct((*p).(Struct))
}

func (m *Machine) bigOfStruct(s Struct) *big.Int {
	r := new(big.Int)
	nat := s[1].(Slice)
	w := make([]big.Word, len(nat))
	for i, x := range nat {
		w[i] = big.Word(conc(x))
	}
	r.SetBits(w)
	switch n := s[0].(type) {
	case bool:
		if n {
			r.Neg(r)
		}
	default:
		panic(errSymbolic{})
	}
	return r
}

func (m *Machine) bigToStruct(b *big.Int) Struct {
	ws := b.Bits()
	var nat Slice
	if len(ws) > 0 {
		nat = make(Slice, len(ws))
		for i, w := range ws {
			nat[i] = C(uint64(w))
		}
	}
	return Struct{b.Sign() < 0, nat}
}

func (m *Machine) bigToPtr(b *big.Int) Value {
	if b == nil {
		return (*Value)(nil)
	}
	p := new(Value)
	*p = m.bigToStruct(b)
	return p
}

var curveNames = map[string]elliptic.Curve{"P-256": elliptic.P256(), "P-384": elliptic.P384(), "P-224": elliptic.P224(), "P-521": elliptic.P521()}

// toNative stores v into dst.
func (m *Machine) toNative(v Value, dst reflect.Value, memo map[*Value]reflect.Value) {
	dst = writable(dst)
	t := dst.Type()
	if nv, ok := v.(*NativeV); ok && nv != nil {
		if x := reflect.ValueOf(nv.v); x.IsValid() && x.Type().AssignableTo(t) {
			dst.Set(x)
			return
		}
		panic(unsup("native object %T where %s wanted", nv.v, t))
	}
	switch t {
	case tBigInt:
		b := m.bigOfStruct(v.(Struct))
		dst.Set(reflect.ValueOf(*b))
		return
	case tTime:
		dst.Set(reflect.ValueOf(m.timeOf(v)))
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		b, ok := v.(bool)
		if !ok {
			panic(errSymbolic{})
		}
		dst.SetBool(b)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		dst.SetInt(sext(conc(v), uint8(t.Bits())))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		dst.SetUint(conc(v))
	case reflect.Float32, reflect.Float64:
		f, ok := v.(float64)
		if !ok {
			panic(errSymbolic{})
		}
		dst.SetFloat(f)
	case reflect.String:
		s, ok := v.(string)
		if !ok {
			panic(errSymbolic{})
		}
		dst.SetString(s)
	case reflect.Slice:
		s := v.(Slice)
		if s == nil {
			return
		}
		n := reflect.MakeSlice(t, len(s), len(s))
		for i := range s {
			m.toNative(s[i], n.Index(i), memo)
		}
		dst.Set(n)
	case reflect.Array:
		a := v.(Array)
		for i := range a {
			m.toNative(a[i], dst.Index(i), memo)
		}
	case reflect.Struct:
		s := v.(Struct)
		if len(s) != t.NumField() {
			panic(unsup("struct %s has a different layout natively", t))
		}
		for i := range s {
			m.toNative(s[i], dst.Field(i), memo)
		}
	case reflect.Pointer:
		p, ok := v.(*Value)
		if !ok || p == nil {
			return
		}
		if x, ok := memo[p]; ok {
			dst.Set(x)
			return
		}
		if t.Elem() == tLocation {
			dst.Set(reflect.ValueOf(time.UTC))
			return
		}
		n := reflect.New(t.Elem())
		memo[p] = n
		m.toNative(*p, n.Elem(), memo)
		dst.Set(n)
	case reflect.Map:
		mp, _ := v.(*MapV)
		if mp == nil {
			return
		}
		n := reflect.MakeMap(t)
		for _, e := range mp.ents {
			if e.dead {
				continue
			}
			k := reflect.New(t.Key()).Elem()
			x := reflect.New(t.Elem()).Elem()
			m.toNative(e.k, k, memo)
			m.toNative(e.v, x, memo)
			n.SetMapIndex(k, x)
		}
		dst.Set(n)
	case reflect.Interface:
		i := v.(Iface)
		if i.t == nil {
			return
		}
		if t == tError {
			dst.Set(reflect.ValueOf(&nativeErr{m.errText(i), i}))
			return
		}
		if nv, ok := i.v.(*NativeV); ok && nv != nil {
			if c, ok := nv.v.(*curveObj); ok {
				dst.Set(reflect.ValueOf(c.c))
				return
			}
			m.toNative(nv, dst, memo)
			return
		}
		if t.PkgPath() == "crypto/elliptic" || strings.HasSuffix(i.t.String(), "elliptic.nistCurve[*crypto/internal/fips140/nistec.P256Point]") {
			dst.Set(reflect.ValueOf(m.curveOf(i)))
			return
		}
		if t.Name() == "Reader" && t.PkgPath() == "io" {
			return // randomness: nil selects deterministic variants
		}
		rt := m.nativeType(i.t)
		if rt == nil {
			panic(unsup("no native type for %s", i.t))
		}
		n := reflect.New(rt).Elem()
		m.toNative(i.v, n, memo)
		dst.Set(n)
	case reflect.Func:
		if f, ok := v.(*ssa.Function); ok && f == nil {
			return
		}
		panic(unsup("function passed to native code"))
	case reflect.UnsafePointer, reflect.Chan:
		return
	default:
		panic(unsup("toNative %s", t))
	}
}

func (m *Machine) errText(i Iface) string {
	if i.t == nil {
		return "<nil>"
	}
	if nv, ok := i.v.(*NativeV); ok && nv != nil {
		if e, ok := nv.v.(error); ok {
			return e.Error()
		}
	}
	f := m.eng.lookupMethod(i.t, nil, "Error")
	if f == nil {
		return "error"
	}
	r := m.callFn(nil, f, []Value{i.v}, nil)
	switch s := r.(type) {
	case string:
		return s
	case *SStr:
		return renderBytes(s.b)
	}
	return "error"
}

func (m *Machine) timeOf(v Value) time.Time {
	s := v.(Struct)
	var tm time.Time
	p := (*[3]uint64)(unsafe.Pointer(&tm))
	p[0], p[1] = conc(s[0]), conc(s[1])
	if lp, ok := s[2].(*Value); ok && lp != nil {
		return tm.UTC()
	}
	return tm
}

func (m *Machine) timeToStruct(t time.Time) Struct {
	t = t.UTC().Round(0)
	p := (*[3]uint64)(unsafe.Pointer(&t))
	return Struct{C(p[0]), C(p[1]), (*Value)(nil)}
}

func (m *Machine) curveOf(i Iface) elliptic.Curve {
	if i.t == nil {
		return nil
	}
	if nv, ok := i.v.(*NativeV); ok && nv != nil {
		if c, ok := nv.v.(*curveObj); ok {
			return c.c
		}
	}
	panic(unsup("unknown curve %s", i.t))
}

// nativeType maps a types.Type of the program to a reflect type.
func (m *Machine) nativeType(t types.Type) reflect.Type {
	switch x := t.(type) {
	case *types.Pointer:
		if e := m.nativeType(x.Elem()); e != nil {
			return reflect.PointerTo(e)
		}
		return nil
	case *types.Slice:
		if e := m.nativeType(x.Elem()); e != nil {
			return reflect.SliceOf(e)
		}
		return nil
	case *types.Array:
		if e := m.nativeType(x.Elem()); e != nil {
			return reflect.ArrayOf(int(x.Len()), e)
		}
		return nil
	case *types.Named:
		n := x.Obj().Name()
		if x.Obj().Pkg() != nil {
			n = x.Obj().Pkg().Path() + "." + n
		}
		if r, ok := nativeTypes[n]; ok {
			return r
		}
		return nil
	case *types.Alias:
		return m.nativeType(types.Unalias(t))
	case *types.Basic:
		return basicTypes[x.Kind()]
	case *types.Map:
		k, v := m.nativeType(x.Key()), m.nativeType(x.Elem())
		if k != nil && v != nil {
			return reflect.MapOf(k, v)
		}
	case *types.Interface:
		if x.NumMethods() == 0 {
			return reflect.TypeOf((*any)(nil)).Elem()
		}
	}
	return nil
}

var basicTypes = map[types.BasicKind]reflect.Type{
	types.Bool: reflect.TypeOf(false), types.Int: reflect.TypeOf(0), types.Int8: reflect.TypeOf(int8(0)), types.Int16: reflect.TypeOf(int16(0)),
	types.Int32: reflect.TypeOf(int32(0)), types.Int64: reflect.TypeOf(int64(0)), types.Uint: reflect.TypeOf(uint(0)), types.Uint8: reflect.TypeOf(uint8(0)),
	types.Uint16: reflect.TypeOf(uint16(0)), types.Uint32: reflect.TypeOf(uint32(0)), types.Uint64: reflect.TypeOf(uint64(0)), types.String: reflect.TypeOf(""),
	types.Float64: reflect.TypeOf(float64(0)), types.Float32: reflect.TypeOf(float32(0)), types.Uintptr: reflect.TypeOf(uintptr(0)),
}

// typeOfNative maps a reflect type back to a types.Type.
func (m *Machine) typeOfNative(rt reflect.Type) types.Type {
	if rt.PkgPath() != "" && rt.Name() != "" {
		return m.eng.typeByName(rt.PkgPath(), rt.Name())
	}
	switch rt.Kind() {
	case reflect.Pointer:
		if e := m.typeOfNative(rt.Elem()); e != nil {
			return types.NewPointer(e)
		}
	case reflect.Slice:
		if e := m.typeOfNative(rt.Elem()); e != nil {
			return types.NewSlice(e)
		}
	default:
		for k, b := range basicTypes {
			if b == rt {
				return types.Typ[k]
			}
		}
	}
	return nil
}

func (m *Machine) toInterp(v reflect.Value, t types.Type, memo map[uintptr]*Value) Value {
	if v.Kind() == reflect.Interface {
		if v.IsNil() {
			return Iface{}
		}
		e := v.Elem()
		if err, ok := safeIface(e).(error); ok && v.Type() == tError {
			return m.mkError(err)
		}
		if c, ok := safeIface(e).(elliptic.Curve); ok {
			return m.curveIface(c)
		}
		dt := m.typeOfNative(e.Type())
		if dt == nil {
			panic(unsup("native dynamic type %s", e.Type()))
		}
		return Iface{dt, m.toInterp(e, dt, memo)}
	}
	switch v.Type() {
	case tBigInt:
		var b big.Int
		if v.CanAddr() {
			b = *(*big.Int)(unsafe.Pointer(v.UnsafeAddr()))
		} else {
			c := reflect.New(tBigInt).Elem()
			c.Set(v)
			b = *(*big.Int)(unsafe.Pointer(c.UnsafeAddr()))
		}
		return m.bigToStruct(&b)
	case tTime:
		c := reflect.New(tTime).Elem()
		if v.CanInterface() {
			c.Set(v)
		} else {
			c.Set(reflect.NewAt(tTime, unsafe.Pointer(v.UnsafeAddr())).Elem())
		}
		return m.timeToStruct(c.Interface().(time.Time))
	}
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return C(uint64(v.Int()) & mask(uint8(v.Type().Bits())))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return C(v.Uint())
	case reflect.Float32, reflect.Float64:
		return v.Float()
	case reflect.String:
		return v.String()
	case reflect.Slice:
		if v.IsNil() {
			return Slice(nil)
		}
		et := t.Underlying().(*types.Slice).Elem()
		r := make(Slice, v.Len())
		for i := range r {
			r[i] = m.toInterp(v.Index(i), et, memo)
		}
		return r
	case reflect.Array:
		et := t.Underlying().(*types.Array).Elem()
		r := make(Array, v.Len())
		for i := range r {
			r[i] = m.toInterp(v.Index(i), et, memo)
		}
		return r
	case reflect.Struct:
		st, ok := t.Underlying().(*types.Struct)
		if !ok || st.NumFields() != v.NumField() {
			panic(unsup("struct %s layout differs", t))
		}
		if !v.CanAddr() {
			c := reflect.New(v.Type()).Elem()
			c.Set(v)
			v = c
		}
		r := make(Struct, v.NumField())
		for i := range r {
			f := v.Field(i)
			if !f.CanInterface() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			r[i] = m.toInterp(f, st.Field(i).Type(), memo)
		}
		return r
	case reflect.Pointer:
		if v.IsNil() {
			return (*Value)(nil)
		}
		if p, ok := memo[v.Pointer()]; ok {
			return p
		}
		p := new(Value)
		memo[v.Pointer()] = p
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			panic(unsup("pointer %s", t))
		}
		*p = m.toInterp(v.Elem(), pt.Elem(), memo)
		return p
	case reflect.Map:
		if v.IsNil() {
			return (*MapV)(nil)
		}
		mt := t.Underlying().(*types.Map)
		r := newMap()
		on := m.trailOn
		m.trailOn = false
		for _, k := range v.MapKeys() {
			m.mapSet(r, m.toInterp(k, mt.Key(), memo), m.toInterp(v.MapIndex(k), mt.Elem(), memo))
		}
		m.trailOn = on
		return r
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return m.zero(t)
	}
	panic(unsup("toInterp %s", v.Type()))
}

func safeIface(v reflect.Value) any {
	if v.CanInterface() {
		return v.Interface()
	}
	return nil
}

// mkError builds an interpreted error carrying the native text.
func (m *Machine) mkError(err error) Value {
	if err == nil {
		return Iface{}
	}
	var ne *nativeErr
	if errors.As(err, &ne) {
		return ne.v
	}
	return m.errorStr(err.Error())
}

// errorStr is errors.New(s).
func (m *Machine) errorStr(s Value) Value {
	t := m.eng.typeByName("errors", "errorString")
	p := new(Value)
	*p = Struct{s}
	return Iface{types.NewPointer(t), p}
}

func (m *Machine) curveIface(c elliptic.Curve) Value {
	key := "curve:" + c.Params().Name
	if v, ok := m.local[key]; ok {
		return v.(Value)
	}
	v := Iface{m.eng.placeholder, &NativeV{&curveObj{c}}}
	m.local[key] = v
	return v
}
