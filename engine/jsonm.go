package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"go/types"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Model of encoding/json on concrete values.

type jfield struct {
	idx       int
	name      string
	omitEmpty bool
	typ       types.Type
	tagged    bool
	embed     bool
}

func jsonFields(st *types.Struct) []jfield {
	var r []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		if f.Anonymous() && tag == "" {
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				r = append(r, jfield{idx: i, typ: f.Type(), embed: true})
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		p := strings.Split(tag, ",")
		jf := jfield{idx: i, name: p[0], typ: f.Type()}
		for _, o := range p[1:] {
			if o == "omitempty" {
				jf.omitEmpty = true
			} else {
				panic(unsup("json tag option %s", o))
			}
		}
		if jf.name == "" {
			jf.name = f.Name()
		}
		r = append(r, jf)
	}
	return r
}

func (m *Machine) jsonEnc(sb *bytes.Buffer, v Value, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if isNilPtr(v) {
			sb.WriteString("null")
			return
		}
		m.jsonEnc(sb, *(v.(*Value)), u.Elem())
		return
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			sb.WriteString("null")
			return
		}
		m.jsonEnc(sb, i.v, i.t)
		return
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.String() == "time.Time" {
		b, _ := json.Marshal(m.timeOf(v))
		sb.Write(b)
		return
	}
	for _, n := range []string{"MarshalJSON", "MarshalText"} {
		if m.eng.lookupMethod(t, nil, n) != nil {
			panic(unsup("json: %s on %s", n, t))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case bool:
			sb.WriteString(strconv.FormatBool(x))
		case C:
			w, sg, _ := width(u)
			if sg {
				sb.WriteString(strconv.FormatInt(sext(uint64(x), w), 10))
			} else {
				sb.WriteString(strconv.FormatUint(uint64(x), 10))
			}
		case *Term:
			if x.w == 0 {
				sb.WriteString(strconv.FormatBool(m.branch(x)))
				return
			}
			m.jsonEnc(sb, C(m.concretize(x)), t)
		case string:
			b, _ := json.Marshal(x)
			sb.Write(b)
		case *SStr:
			b, _ := json.Marshal(string(m.concAll(x.b)))
			sb.Write(b)
		case float64:
			b, err := json.Marshal(x)
			if err != nil {
				panic(cborErr{err.Error()})
			}
			sb.Write(b)
		default:
			panic(cborErr{"json: unsupported type: " + t.String()})
		}
	case *types.Slice:
		s, _ := v.(Slice)
		if s == nil {
			sb.WriteString("null")
			return
		}
		if isByteElem(u.Elem()) {
			sb.WriteByte('"')
			sb.WriteString(base64.StdEncoding.EncodeToString(m.concAll(s)))
			sb.WriteByte('"')
			return
		}
		m.jsonList(sb, s, u.Elem())
	case *types.Array:
		m.jsonList(sb, v.(Array), u.Elem())
	case *types.Map:
		mp, _ := v.(*MapV)
		if mp == nil {
			sb.WriteString("null")
			return
		}
		type kv struct {
			k string
			v Value
		}
		var l []kv
		for _, e := range mp.ents {
			if e.dead {
				continue
			}
			var ks string
			switch x := e.k.(type) {
			case string:
				ks = x
			case C:
				w, sg, _ := width(u.Key())
				if sg {
					ks = strconv.FormatInt(sext(uint64(x), w), 10)
				} else {
					ks = strconv.FormatUint(uint64(x), 10)
				}
			default:
				panic(unsup("json: map key %T", e.k))
			}
			l = append(l, kv{ks, e.v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
		sb.WriteByte('{')
		for i, e := range l {
			if i > 0 {
				sb.WriteByte(',')
			}
			b, _ := json.Marshal(e.k)
			sb.Write(b)
			sb.WriteByte(':')
			m.jsonEnc(sb, e.v, u.Elem())
		}
		sb.WriteByte('}')
	case *types.Struct:
		sb.WriteByte('{')
		first := true
		m.jsonStruct(sb, v.(Struct), u, &first)
		sb.WriteByte('}')
	default:
		panic(cborErr{"json: unsupported type: " + t.String()})
	}
}

func (m *Machine) jsonStruct(sb *bytes.Buffer, s Struct, u *types.Struct, first *bool) {
	e := &cenc{m: m}
	for _, f := range jsonFields(u) {
		if f.embed {
			m.jsonStruct(sb, s[f.idx].(Struct), f.typ.Underlying().(*types.Struct), first)
			continue
		}
		if f.omitEmpty {
			if _, isS := f.typ.Underlying().(*types.Struct); !isS && e.empty(s[f.idx], f.typ) {
				continue
			}
		}
		if !*first {
			sb.WriteByte(',')
		}
		*first = false
		b, _ := json.Marshal(f.name)
		sb.Write(b)
		sb.WriteByte(':')
		m.jsonEnc(sb, s[f.idx], f.typ)
	}
}

func (m *Machine) jsonList(sb *bytes.Buffer, s []Value, et types.Type) {
	sb.WriteByte('[')
	for i := range s {
		if i > 0 {
			sb.WriteByte(',')
		}
		m.jsonEnc(sb, s[i], et)
	}
	sb.WriteByte(']')
}

type jobj struct {
	keys []string
	vals []any
}

func jsonParse(d *json.Decoder) (any, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case json.Delim:
		if x == '{' {
			o := &jobj{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				v, err := jsonParse(d)
				if err != nil {
					return nil, err
				}
				o.keys = append(o.keys, k.(string))
				o.vals = append(o.vals, v)
			}
			_, err := d.Token()
			return o, err
		}
		l := []any{}
		for d.More() {
			v, err := jsonParse(d)
			if err != nil {
				return nil, err
			}
			l = append(l, v)
		}
		_, err := d.Token()
		return l, err
	}
	return t, nil
}

func (m *Machine) jsonDec(x any, p *Value, t types.Type, err *string) {
	fail := func(s string) {
		if *err == "" {
			*err = "json: cannot unmarshal " + s + " into Go value of type " + t.String()
		}
	}
	if x == nil {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			m.setCell(p, m.zero(t))
		}
		return
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if isNilPtr(*p) {
			np := new(Value)
			*np = m.zero(pt.Elem())
			m.setCell(p, np)
		}
		m.jsonDec(x, (*p).(*Value), pt.Elem(), err)
		return
	}
	for _, n := range []string{"UnmarshalJSON", "UnmarshalText"} {
		if m.eng.lookupMethod(types.NewPointer(t), nil, n) != nil {
			panic(unsup("json: %s on %s", n, t))
		}
	}
	switch y := x.(type) {
	case bool:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			m.setCell(p, y)
			return
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			m.setCell(p, Iface{types.Typ[types.Bool], y})
			return
		}
		fail("bool")
	case string:
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				m.setCell(p, y)
				return
			}
		case *types.Slice:
			if isByteElem(u.Elem()) {
				b, e := base64.StdEncoding.DecodeString(y)
				if e != nil {
					if *err == "" {
						*err = e.Error()
					}
					return
				}
				m.setCell(p, bytesToSlice(b))
				return
			}
		case *types.Interface:
			m.setCell(p, Iface{types.Typ[types.String], y})
			return
		}
		fail("string")
	case json.Number:
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				w, sg, _ := width(u)
				if sg {
					v, e := strconv.ParseInt(string(y), 10, int(w))
					if e != nil {
						fail("number " + string(y))
						return
					}
					m.setCell(p, C(uint64(v)&mask(w)))
				} else {
					v, e := strconv.ParseUint(string(y), 10, int(w))
					if e != nil {
						fail("number " + string(y))
						return
					}
					m.setCell(p, C(v))
				}
				return
			}
			if u.Info()&types.IsFloat != 0 {
				f, e := y.Float64()
				if e != nil {
					fail("number")
					return
				}
				m.setCell(p, f)
				return
			}
		case *types.Interface:
			f, _ := y.Float64()
			m.setCell(p, Iface{types.Typ[types.Float64], f})
			return
		}
		fail("number")
	case []any:
		switch u := t.Underlying().(type) {
		case *types.Slice:
			s := make(Slice, len(y))
			for i := range y {
				s[i] = m.zero(u.Elem())
				m.jsonDec(y[i], &s[i], u.Elem(), err)
			}
			m.setCell(p, s)
			return
		case *types.Array:
			a := (*p).(Array)
			for i := range a {
				if i < len(y) {
					m.jsonDec(y[i], &a[i], u.Elem(), err)
				} else {
					m.store(&a[i], m.zero(u.Elem()))
				}
			}
			return
		case *types.Interface:
			at := types.Universe.Lookup("any").Type()
			s := make(Slice, len(y))
			for i := range y {
				s[i] = Iface{}
				m.jsonDec(y[i], &s[i], at, err)
			}
			m.setCell(p, Iface{types.NewSlice(at), s})
			return
		}
		fail("array")
	case *jobj:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			fs := jsonFields(u)
			s := (*p).(Struct)
			for i, k := range y.keys {
				hit := -1
				for j, f := range fs {
					if f.embed {
						panic(unsup("json: decode embedded"))
					}
					if f.name == k {
						hit = j
						break
					}
				}
				if hit < 0 {
					for j, f := range fs {
						if strings.EqualFold(f.name, k) {
							hit = j
							break
						}
					}
				}
				if hit >= 0 {
					m.jsonDec(y.vals[i], &s[fs[hit].idx], fs[hit].typ, err)
				}
			}
			return
		case *types.Map:
			mp, _ := (*p).(*MapV)
			if mp == nil {
				mp = newMap()
				m.setCell(p, mp)
			}
			kb, ok := u.Key().Underlying().(*types.Basic)
			if !ok || kb.Info()&types.IsString == 0 {
				panic(unsup("json: map key %s", u.Key()))
			}
			for i, k := range y.keys {
				var v Value = m.zero(u.Elem())
				m.jsonDec(y.vals[i], &v, u.Elem(), err)
				m.mapSet(mp, k, v)
			}
			return
		case *types.Interface:
			at := types.Universe.Lookup("any").Type()
			mp := newMap()
			for i, k := range y.keys {
				var v Value = Iface{}
				m.jsonDec(y.vals[i], &v, at, err)
				m.mapSet(mp, k, v)
			}
			m.setCell(p, Iface{types.NewMap(types.Typ[types.String], at), mp})
			return
		}
		fail("object")
	}
}

func initJSON() {
	intrinsics["encoding/json.Marshal"] = func(m *Machine, fr *frame, a []Value) (res Value) {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(cborErr); ok {
					res = Tuple{Slice(nil), m.errorStr(e.msg)}
					return
				}
				panic(r)
			}
		}()
		var sb bytes.Buffer
		i := a[0].(Iface)
		if i.t == nil {
			return Tuple{bytesToSlice([]byte("null")), Iface{}}
		}
		m.jsonEnc(&sb, i.v, i.t)
		return Tuple{bytesToSlice(sb.Bytes()), Iface{}}
	}
	intrinsics["encoding/json.Unmarshal"] = func(m *Machine, fr *frame, a []Value) Value {
		b := m.concAll(a[0].(Slice))
		if !json.Valid(b) {
			var x any
			return m.mkError(json.Unmarshal(b, &x))
		}
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		x, err := jsonParse(d)
		if err != nil && err != io.EOF {
			return m.mkError(err)
		}
		i := a[1].(Iface)
		pt, ok := i.t.Underlying().(*types.Pointer)
		if i.t == nil || !ok || isNilPtr(i.v) {
			return m.errorStr("json: Unmarshal(non-pointer)")
		}
		es := ""
		m.jsonDec(x, i.v.(*Value), pt.Elem(), &es)
		if es != "" {
			return m.errorStr(es)
		}
		return Iface{}
	}
}

func unixTime(s int64) time.Time { return time.Unix(s, 0) }
