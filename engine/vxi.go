package main

import (
	"fmt"
	"go/types"
	"strings"
)

const vxPkg = "github.com/fido-alliance/iot-fdo-conformance-tools/vxh/vx."

func (m *Machine) addInput(r *inputRec) { m.path.inputs = append(m.path.inputs, r) }

func strArg(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	panic(unsup("vx label must be a constant string"))
}

func initVX() {
	def := func(n string, f Intrinsic) { intrinsics[vxPkg+n] = f }
	intv := func(w uint8) Intrinsic {
		return func(m *Machine, fr *frame, a []Value) Value {
			n := strArg(a[0])
			t := m.freshVar(fmt.Sprintf("in%d:%s", w, n), w, 0)
			m.addInput(&inputRec{Name: n, Kind: "int", term: t})
			return t
		}
	}
	def("Byte", intv(8))
	def("U16", intv(16))
	def("U32", intv(32))
	def("U64", intv(64))
	def("Bool", intv(0))
	def("Int", func(m *Machine, fr *frame, a []Value) Value {
		n := strArg(a[0])
		lo, hi := int64(a[1].(C)), int64(a[2].(C))
		if lo == hi {
			m.addInput(&inputRec{Name: n, Kind: "int", conc: uint64(lo)})
			return C(lo)
		}
		if lo >= 0 && hi < 1<<62 {
			// keep the term narrow so that the simplifier knows its bound
			w := uint8(1)
			for int64(mask(w)) < hi {
				w++
			}
			t := m.freshVar(fmt.Sprintf("in%d:%s", w, n), w, uint64(lo))
			full := m.bank.ZExt(t, 64)
			m.addInput(&inputRec{Name: n, Kind: "int", term: full})
			if lo > 0 {
				m.assumeV(V(m.bank.Bin(OULE, m.bank.Const(uint64(lo), w), t)))
			}
			if uint64(hi) < mask(w) {
				m.assumeV(V(m.bank.Bin(OULE, t, m.bank.Const(uint64(hi), w))))
			}
			return full
		}
		t := m.freshVar("in64:"+n, 64, uint64(lo))
		m.addInput(&inputRec{Name: n, Kind: "int", term: t})
		m.assumeV(V(m.bank.Bin(OSLE, m.bank.Const(uint64(lo), 64), t)))
		m.assumeV(V(m.bank.Bin(OSLE, t, m.bank.Const(uint64(hi), 64))))
		return t
	})
	def("Choose", func(m *Machine, fr *frame, a []Value) Value {
		n := strArg(a[0])
		k := m.choose(int(m.concIdx(a[1])))
		m.addInput(&inputRec{Name: n, Kind: "choose", conc: uint64(k)})
		return C(k)
	})
	def("Bytes", func(m *Machine, fr *frame, a []Value) Value {
		n := strArg(a[0])
		k := int(m.concIdx(a[1]))
		r := make(Slice, k)
		for i := range r {
			r[i] = m.freshVar("in8:"+n, 8, 0)
		}
		cp := make([]Value, k)
		copy(cp, r)
		m.addInput(&inputRec{Name: n, Kind: "bytes", cells: cp})
		return r
	})
	def("Assume", func(m *Machine, fr *frame, a []Value) Value { m.assumeV(a[0]); return nil })
	def("Assert", func(m *Machine, fr *frame, a []Value) Value { m.assertV(fr, a[0], strArg(a[1])); return nil })
	def("Reach", func(m *Machine, fr *frame, a []Value) Value {
		h := m.path.h
		h.mu.Lock()
		h.reach[strArg(a[0])]++
		h.mu.Unlock()
		return nil
	})
	def("Expect", func(m *Machine, fr *frame, a []Value) Value {
		h := m.path.h
		h.mu.Lock()
		h.expect[strArg(a[0])] = true
		h.mu.Unlock()
		return nil
	})
	def("Observe", func(m *Machine, fr *frame, a []Value) Value {
		o := obsRec{label: strArg(a[0])}
		x := a[1].(Iface)
		switch v := x.v.(type) {
		case Slice:
			o.v = append([]Value{}, v...)
			o.w = 255
		case string, *SStr:
			o.v = append([]Value{}, strBytes(v)...)
			o.w = 255
		case C:
			w, sg, _ := width(x.t)
			if sg {
				o.s = itoa(sext(uint64(v), w))
			} else {
				o.s = utoa(uint64(v))
			}
		case bool:
			o.s = "false"
			if v {
				o.s = "true"
			}
		case *Term:
			_, sg, _ := width(x.t)
			if sg {
				if v.mx > mask(v.w)>>1 {
					o.s = itoa(sext(m.concretize(v), v.w))
					break
				}
			}
			o.v = []Value{v}
			o.w = v.w
		default:
			panic(unsup("Observe %T", x.v))
		}
		m.path.obs = append(m.path.obs, o)
		return nil
	})
	def("Try", func(m *Machine, fr *frame, a []Value) Value {
		var tp *targetPanic
		d := m.depth
		func() {
			defer func() {
				if r := recover(); r != nil {
					if p, ok := r.(targetPanic); ok {
						tp = &p
						return
					}
					panic(r)
				}
			}()
			m.call(fr, a[0], nil)
		}()
		m.depth = d
		if tp == nil {
			return Tuple{false, ""}
		}
		msg := tp.msg
		if tp.pos != "" {
			m.path.h.notePanic(msg + " at " + tp.pos)
		}
		return Tuple{true, msg}
	})
	def("Bound", func(m *Machine, fr *frame, a []Value) Value {
		v := a[1].(C)
		if m.eng.tier == "thorough" {
			v = a[2].(C)
		}
		h := m.path.h
		h.mu.Lock()
		h.bounds[strArg(a[0])] = int64(v)
		h.mu.Unlock()
		return v
	})
	def("Assumption", func(m *Machine, fr *frame, a []Value) Value {
		h := m.path.h
		h.mu.Lock()
		h.assumptions[strArg(a[0])] = true
		h.mu.Unlock()
		return nil
	})
	def("Option", func(m *Machine, fr *frame, a []Value) Value {
		m.path.opts[strArg(a[0])] = int64(a[1].(C))
		return nil
	})
	def("Retry", func(m *Machine, fr *frame, a []Value) Value { return nil })
	def("Symbolic", func(m *Machine, fr *frame, a []Value) Value { return true })
	def("And", func(m *Machine, fr *frame, a []Value) Value { return m.andV(a[0], a[1]) })
	def("Or", func(m *Machine, fr *frame, a []Value) Value { return V(m.bank.Or(m.BT(a[0]), m.BT(a[1]))) })
	def("Not", func(m *Machine, fr *frame, a []Value) Value { return m.notV(a[0]) })
	def("Implies", func(m *Machine, fr *frame, a []Value) Value {
		return V(m.bank.Or(m.bank.Not(m.BT(a[0])), m.BT(a[1])))
	})
	def("IteByte", func(m *Machine, fr *frame, a []Value) Value {
		if c, ok := a[0].(bool); ok {
			if c {
				return a[1]
			}
			return a[2]
		}
		return V(m.bank.Ite(m.BT(a[0]), m.T(a[1], 8), m.T(a[2], 8)))
	})
	def("EqBytes", func(m *Machine, fr *frame, a []Value) Value { return m.bytesEq(a[0].(Slice), a[1].(Slice)) })
	def("EqStr", func(m *Machine, fr *frame, a []Value) Value { return m.eq(a[0], a[1]) })
}

func (h *Harness) notePanic(s string) {
	h.mu.Lock()
	h.reach["panic: "+s]++
	h.mu.Unlock()
}

func itoa(v int64) string {
	if v < 0 {
		return "-" + utoa(uint64(-v))
	}
	return utoa(uint64(v))
}
func utoa(v uint64) string {
	var b [20]byte
	i := len(b)
	for {
		i--
		b[i] = byte('0' + v%10)
		v /= 10
		if v == 0 {
			return string(b[i:])
		}
	}
}

var _ types.Type
var _ = strings.Contains
