package main

import (
	"go/types"
	"reflect"
)

// rval is what a reflect.Value holds: a value of static type t.
type rval struct {
	t types.Type
	v Value
}

func mkRval(t types.Type, v Value) Value { return Struct{&rval{t, v}, nil, C(0)} }
func getRval(v Value) *rval {
	if s, ok := v.(Struct); ok && len(s) > 0 {
		if r, ok := s[0].(*rval); ok {
			return r
		}
	}
	return nil
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		}
	}
	panic(unsup("reflect kind of %s", t))
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	panic(unsup("reflect element of %s", t))
}

func nilValue(v Value) bool {
	switch p := v.(type) {
	case nil:
		return true
	case *Value:
		return p == nil
	case *NativeV:
		return p == nil
	case Slice:
		return p == nil
	case *MapV:
		return p == nil
	case *Closure:
		return p == nil
	case Iface:
		return p.t == nil
	}
	return false
}

func reflectInit() {
	zero := func() Value { return Struct{(*Value)(nil), nil, C(0)} }
	elem := func(m *Machine, fr *frame, r *rval) Value {
		switch kindOf(r.t) {
		case reflect.Pointer:
			if nilValue(r.v) {
				return zero()
			}
			return mkRval(elemOf(r.t), copyVal(*m.deref(fr, r.v)))
		case reflect.Interface:
			i := r.v.(Iface)
			if i.t == nil {
				return zero()
			}
			return mkRval(i.t, i.v)
		}
		panic(unsup("reflect.Value.Elem of %s", r.t))
	}
	{
		intrinsics["reflect.ValueOf"] = func(m *Machine, fr *frame, a []Value) Value {
			i := a[0].(Iface)
			if i.t == nil {
				return zero()
			}
			return mkRval(i.t, i.v)
		}
		intrinsics["reflect.Indirect"] = func(m *Machine, fr *frame, a []Value) Value {
			if r := getRval(a[0]); r != nil && kindOf(r.t) == reflect.Pointer {
				return elem(m, fr, r)
			}
			return a[0]
		}
		meth := func(name string, f func(m *Machine, fr *frame, r *rval) Value) {
			intrinsics["(reflect.Value)."+name] = func(m *Machine, fr *frame, a []Value) Value {
				r := getRval(a[0])
				if r == nil {
					switch name {
					case "Kind":
						return C(uint64(reflect.Invalid))
					case "IsValid":
						return false
					}
					panic(unsup("reflect.Value.%s of the zero Value", name))
				}
				return f(m, fr, r)
			}
		}
		meth("Kind", func(m *Machine, fr *frame, r *rval) Value { return C(uint64(kindOf(r.t))) })
		meth("IsValid", func(m *Machine, fr *frame, r *rval) Value { return true })
		meth("IsNil", func(m *Machine, fr *frame, r *rval) Value { return nilValue(r.v) })
		meth("Elem", elem)
		meth("Type", func(m *Machine, fr *frame, r *rval) Value {
			return Iface{m.eng.placeholder, &NativeV{&rtypeObj{r.t}}}
		})
		meth("Interface", func(m *Machine, fr *frame, r *rval) Value {
			if i, ok := r.v.(Iface); ok && kindOf(r.t) == reflect.Interface {
				return i
			}
			return Iface{r.t, copyVal(r.v)}
		})
		meth("Len", func(m *Machine, fr *frame, r *rval) Value {
			switch x := r.v.(type) {
			case Slice:
				return C(uint64(len(x)))
			case Array:
				return C(uint64(len(x)))
			case string:
				return C(uint64(len(x)))
			}
			panic(unsup("reflect.Value.Len of %s", r.t))
		})
	}
}
