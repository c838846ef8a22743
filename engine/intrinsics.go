package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"mime"
	"net"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]Intrinsic{}
var natives = map[string]any{
	"encoding/hex.EncodeToString":                hex.EncodeToString,
	"strconv.Itoa":                               strconv.Itoa,
	"strconv.Atoi":                               nil,
	"(*encoding/base64.Encoding).EncodeToString": nil,
	"mime.ParseMediaType":                        mime.ParseMediaType,
	"mime.TypeByExtension":                       mime.TypeByExtension,
	"regexp.MatchString":                         regexp.MatchString,
	"path/filepath.Join":                         filepath.Join,
	"encoding/pem.EncodeToMemory":                pem.EncodeToMemory,
	"encoding/pem.Decode":                        pem.Decode,
	"strings.Contains":                           strings.Contains,
	"strings.HasPrefix":                          strings.HasPrefix,
	"strings.Split":                              strings.Split,
	"strings.ToLower":                            strings.ToLower,
	"strings.ToUpper":                            strings.ToUpper,
	"strings.TrimSpace":                          strings.TrimSpace,
	"strings.Index":                              strings.Index,
	"strings.IndexByte":                          strings.IndexByte,
	"strings.LastIndex":                          strings.LastIndex,
	"strings.Join":                               strings.Join,
	"strings.ReplaceAll":                         strings.ReplaceAll,
	"strings.Replace":                            strings.Replace,
	"strings.Repeat":                             strings.Repeat,
	"strings.EqualFold":                          strings.EqualFold,
	"bytes.Equal":                                nil,
	"net.ParseIP":                                net.ParseIP,
	"(net.IP).String":                            net.IP.String,
	"math.Ceil":                                  math.Ceil,
	"math.Floor":                                 math.Floor,
	"math.Log2":                                  math.Log2,
	"math.Pow":                                   math.Pow,
	"math.Mod":                                   math.Mod,
	"math.Abs":                                   math.Abs,
	"math.Float64bits":                           math.Float64bits,
	"math.Float64frombits":                       math.Float64frombits,
	"math.Float32bits":                           math.Float32bits,
	"math.Float32frombits":                       math.Float32frombits,
	"(time.Time).Format":                         time.Time.Format,
	"(time.Time).AddDate":                        time.Time.AddDate,
	"(time.Time).String":                         time.Time.String,
}

var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "net": true, "net/http": true, "crypto/tls": true, "internal/poll": true, "log": true, "reflect": true,
	"internal/godebug": true, "internal/godebugs": true, "crypto/x509": true, "internal/cpu": true, "crypto/rand": true, "os/signal": true,
	"testing": true, "flag": true, "encoding/json": true, "github.com/fxamacker/cbor/v2": true, "github.com/dgraph-io/badger/v4": true, "google.golang.org/protobuf": true,
	"crypto/internal/fips140/check": true, "crypto/internal/fips140": true, "crypto/internal/sysrand": true, "crypto/internal/fips140/drbg": true, "vendor/golang.org/x/net/http2/hpack": true,
	"crypto/elliptic": true, "crypto/sha256": true, "crypto/sha512": true, "crypto/ecdsa": true, "internal/runtime/atomic": true, "path/filepath": true, "internal/testlog": true,
	"math/rand": true, "regexp": false, "mime": true, "net/http/httputil": true, "crypto/internal/fips140only": true, "compress/flate": true, "crypto/internal/fips140deps/godebug": true,
}

var initHooks = map[string]func(*Machine, *ssa.Package){
	"crypto/rand": func(m *Machine, p *ssa.Package) {
		if g := p.Var("Reader"); g != nil {
			*m.globals[g] = Iface{m.eng.placeholder, &NativeV{&randReaderObj{}}}
		}
	},
	"github.com/google/uuid": nil,
	"os": func(m *Machine, p *ssa.Package) {
		for _, n := range []string{"ErrNotExist", "ErrExist", "ErrInvalid", "ErrPermission", "ErrClosed"} {
			if g := p.Var(n); g != nil {
				*m.globals[g] = m.errorStr("os: " + n)
			}
		}
	},
	"net/http": func(m *Machine, p *ssa.Package) {
		set := func(n string, f func() Value) {
			if g := p.Var(n); g != nil {
				*m.globals[g] = f()
			}
		}
		for _, n := range []string{"ErrNoCookie", "ErrServerClosed", "ErrBodyNotAllowed", "ErrNotSupported", "ErrUseLastResponse", "ErrHijacked"} {
			n := n
			set(n, func() Value {
				if n == "ErrNoCookie" {
					return m.errorStr("http: named cookie not present")
				}
				return m.errorStr("http: " + n)
			})
		}
		if t := m.eng.typeByName("net/http", "noBody"); t != nil {
			set("NoBody", func() Value { return Struct{} })
		}
		if g := p.Var("DefaultClient"); g != nil {
			c := new(Value)
			*c = m.zero(m.eng.typeByName("net/http", "Client"))
			*m.globals[g] = c
		}
	},
	"reflect":         nil,
	"crypto/elliptic": nil,
}

func init() {
	for k, v := range natives {
		if v == nil {
			delete(natives, k)
		}
	}
	for k, v := range initHooks {
		if v == nil {
			delete(initHooks, k)
		}
	}
	nop := func(m *Machine, fr *frame, a []Value) Value { return nil }
	for _, n := range []string{
		"archive/zip.init#1", "log.Println", "log.Printf", "log.Print", "log.SetFlags", "log.SetOutput", "(*log.Logger).Println", "(*log.Logger).Printf",
		"runtime.KeepAlive", "runtime.GC", "runtime.Gosched", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Enable", "internal/race.Disable",
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "time.Sleep", "(*internal/godebug.Setting).IncNonDefault", "crypto/internal/fips140.RecordApproved", "crypto/internal/fips140.RecordNonApproved",
		"crypto/internal/boring/sig.StandardCrypto", "crypto/internal/boring.Unreachable", "crypto/internal/boring.UnreachableExceptTests", "internal/msan.Read", "internal/asan.Read",
	} {
		intrinsics[n] = nop
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintln", "fmt.Fprint"} {
		intrinsics[n] = func(m *Machine, fr *frame, a []Value) Value { return Tuple{C(0), Iface{}} }
	}
	intrinsics["fmt.Fprintf"] = func(m *Machine, fr *frame, a []Value) Value {
		s := m.sprintf(fr, a[1], a[2].(Slice))
		w := a[0].(Iface)
		if w.t == nil {
			return Tuple{C(0), Iface{}}
		}
		f := m.eng.lookupMethod(w.t, nil, "Write")
		if f == nil {
			return Tuple{C(0), Iface{}}
		}
		if f.String() == "(*os.File).Write" {
			return Tuple{C(0), Iface{}}
		}
		return m.callFn(fr, f, []Value{w.v, Slice(strBytes(s))}, nil)
	}
	for _, n := range []string{"log.Panicln", "log.Panic", "log.Panicf", "log.Fatal", "log.Fatalf", "log.Fatalln"} {
		n := n
		intrinsics[n] = func(m *Machine, fr *frame, a []Value) Value {
			panic(targetPanic{v: Iface{types.Typ[types.String], n}, msg: n, pos: m.posOf(fr)})
		}
	}
	ident := func(i int) Intrinsic { return func(m *Machine, fr *frame, a []Value) Value { return a[i] } }
	intrinsics["internal/abi.NoEscape"] = ident(0)
	intrinsics["internal/abi.Escape"] = ident(0)
	intrinsics["strings.noescape"] = ident(0)
	intrinsics["internal/stringslite.Clone"] = ident(0)
	intrinsics["strings.Clone"] = ident(0)
	intrinsics["unique.Make"] = nil
	delete(intrinsics, "unique.Make")

	intrinsics["(*sync.Once).Do"] = func(m *Machine, fr *frame, a []Value) Value {
		p := m.deref(fr, a[0])
		s := (*p).(Struct)
		// the first field holds done state in some form; use a side table keyed by pointer
		key := fmt.Sprintf("once:%p", p)
		_ = s
		if _, ok := m.local[key]; ok {
			return nil
		}
		m.local[key] = true
		if m.trailOn {
			m.trail = append(m.trail, undo{f: func() { delete(m.local, key) }})
		}
		m.call(fr, a[1], nil)
		return nil
	}
	intrinsics["(*sync.Once).doSlow"] = intrinsics["(*sync.Once).Do"]
	intrinsics["(*sync.WaitGroup).Wait"] = func(m *Machine, fr *frame, a []Value) Value {
		for len(m.pending) > 0 {
			m.runPending(fr)
		}
		return nil
	}
	intrinsics["(*sync.Pool).Get"] = func(m *Machine, fr *frame, a []Value) Value {
		s := (*m.deref(fr, a[0])).(Struct)
		f := s[len(s)-1]
		if c, ok := f.(*ssa.Function); ok && c == nil {
			return Iface{}
		}
		return m.call(fr, f, nil)
	}
	intrinsics["(*sync.Pool).Put"] = nop
	// atomics
	for _, sfx := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		intrinsics["sync/atomic.Load"+sfx] = func(m *Machine, fr *frame, a []Value) Value { return copyVal(*m.deref(fr, a[0])) }
		intrinsics["sync/atomic.Store"+sfx] = func(m *Machine, fr *frame, a []Value) Value { m.store(m.deref(fr, a[0]), a[1]); return nil }
		intrinsics["sync/atomic.Swap"+sfx] = func(m *Machine, fr *frame, a []Value) Value {
			p := m.deref(fr, a[0])
			o := *p
			m.store(p, a[1])
			return o
		}
		intrinsics["sync/atomic.CompareAndSwap"+sfx] = func(m *Machine, fr *frame, a []Value) Value {
			p := m.deref(fr, a[0])
			if m.branchV(m.eq(*p, a[1])) {
				m.store(p, a[2])
				return true
			}
			return false
		}
		w := uint8(64)
		if strings.HasSuffix(sfx, "32") {
			w = 32
		}
		intrinsics["sync/atomic.Add"+sfx] = func(m *Machine, fr *frame, a []Value) Value {
			p := m.deref(fr, a[0])
			v := V(m.bank.Bin(OAdd, m.T(*p, w), m.T(a[1], w)))
			m.store(p, v)
			return v
		}
	}
	intrinsics["(*sync/atomic.Value).Load"] = func(m *Machine, fr *frame, a []Value) Value {
		return (*m.deref(fr, a[0])).(Struct)[0]
	}
	intrinsics["(*sync/atomic.Value).Store"] = func(m *Machine, fr *frame, a []Value) Value {
		m.store(&(*m.deref(fr, a[0])).(Struct)[0], a[1])
		return nil
	}
	// bytealg
	eqSlices := func(m *Machine, fr *frame, a []Value) Value { return m.bytesEq(a[0].(Slice), a[1].(Slice)) }
	intrinsics["bytes.Equal"] = eqSlices
	intrinsics["internal/bytealg.Equal"] = eqSlices
	intrinsics["crypto/hmac.Equal"] = eqSlices
	intrinsics["crypto/subtle.ConstantTimeCompare"] = func(m *Machine, fr *frame, a []Value) Value {
		r := m.bytesEq(a[0].(Slice), a[1].(Slice))
		if b, ok := r.(bool); ok {
			if b {
				return C(1)
			}
			return C(0)
		}
		return V(m.bank.Ite(r.(*Term), m.bank.Const(1, 64), m.bank.Const(0, 64)))
	}
	intrinsics["crypto/internal/fips140/subtle.ConstantTimeCompare"] = intrinsics["crypto/subtle.ConstantTimeCompare"]
	xorBytes := func(m *Machine, fr *frame, a []Value) Value {
		d, x, y := a[0].(Slice), a[1].(Slice), a[2].(Slice)
		n := min(len(x), len(y))
		if n > len(d) {
			panic(targetPanic{v: Iface{types.Typ[types.String], "subtle.XORBytes: dst too short"}, msg: "subtle.XORBytes: dst too short", pos: m.posOf(fr)})
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = V(m.bank.Bin(OXor, m.T(x[i], 8), m.T(y[i], 8)))
		}
		for i := range tmp {
			m.setCell(&d[i], tmp[i])
		}
		return C(n)
	}
	intrinsics["crypto/subtle.XORBytes"] = xorBytes
	intrinsics["crypto/internal/fips140/subtle.XORBytes"] = xorBytes
	cmp := func(a, b func(Value) []Value) Intrinsic {
		return func(m *Machine, fr *frame, v []Value) Value {
			lt, eq := m.bytesLess(a(v[0]), b(v[1]))
			r := m.bank.Ite(lt, m.bank.Const(^uint64(0), 64), m.bank.Ite(eq, m.bank.Const(0, 64), m.bank.Const(1, 64)))
			return V(r)
		}
	}
	sl := func(v Value) []Value { return v.(Slice) }
	intrinsics["internal/bytealg.Compare"] = cmp(sl, sl)
	intrinsics["internal/bytealg.CompareString"] = cmp(strBytes, strBytes)
	intrinsics["bytes.Compare"] = cmp(sl, sl)
	idxByte := func(get func(Value) []Value) Intrinsic {
		return func(m *Machine, fr *frame, a []Value) Value {
			for i, x := range get(a[0]) {
				if m.branchV(m.eq(x, a[1])) {
					return C(i)
				}
			}
			return C(^uint64(0))
		}
	}
	intrinsics["internal/bytealg.IndexByte"] = idxByte(sl)
	intrinsics["internal/bytealg.IndexByteString"] = idxByte(strBytes)
	lastIdx := func(get func(Value) []Value) Intrinsic {
		return func(m *Machine, fr *frame, a []Value) Value {
			b := get(a[0])
			for i := len(b) - 1; i >= 0; i-- {
				if m.branchV(m.eq(b[i], a[1])) {
					return C(i)
				}
			}
			return C(^uint64(0))
		}
	}
	intrinsics["internal/bytealg.LastIndexByte"] = lastIdx(sl)
	intrinsics["internal/bytealg.LastIndexByteString"] = lastIdx(strBytes)
	index := func(get func(Value) []Value) Intrinsic {
		return func(m *Machine, fr *frame, a []Value) Value {
			x, y := get(a[0]), get(a[1])
			for i := 0; i+len(y) <= len(x); i++ {
				if m.branchV(m.bytesEq(x[i:i+len(y)], y)) {
					return C(i)
				}
			}
			return C(^uint64(0))
		}
	}
	intrinsics["internal/bytealg.Index"] = index(sl)
	intrinsics["internal/bytealg.IndexString"] = index(strBytes)
	intrinsics["strings.Index"] = index(strBytes)
	intrinsics["bytes.Index"] = index(sl)
	count := func(get func(Value) []Value) Intrinsic {
		return func(m *Machine, fr *frame, a []Value) Value {
			n := 0
			for _, x := range get(a[0]) {
				if m.branchV(m.eq(x, a[1])) {
					n++
				}
			}
			return C(n)
		}
	}
	intrinsics["internal/bytealg.Count"] = count(sl)
	intrinsics["internal/bytealg.CountString"] = count(strBytes)
	intrinsics["internal/bytealg.MakeNoZero"] = func(m *Machine, fr *frame, a []Value) Value {
		n := int(m.concIdx(a[0]))
		r := make(Slice, n)
		for i := range r {
			r[i] = C(0)
		}
		return r
	}
	intrinsics["encoding/hex.EncodeToString"] = func(m *Machine, fr *frame, a []Value) Value {
		b := a[0].(Slice)
		if allConc(b) {
			return fallThrough{}
		}
		return m.hexStr(b)
	}
	// errors
	intrinsics["errors.Is"] = func(m *Machine, fr *frame, a []Value) Value {
		err, tgt := a[0].(Iface), a[1].(Iface)
		for depth := 0; depth < 20; depth++ {
			if m.eq(err, tgt) == true {
				return true
			}
			if err.t == nil {
				return false
			}
			f := m.eng.lookupMethod(err.t, nil, "Unwrap")
			if f == nil {
				return false
			}
			r := m.callFn(fr, f, []Value{err.v}, nil)
			e, ok := r.(Iface)
			if !ok {
				return false
			}
			err = e
		}
		return false
	}
	intrinsics["errors.As"] = func(m *Machine, fr *frame, a []Value) Value {
		err, tgt := a[0].(Iface), a[1].(Iface)
		pt := tgt.t.Underlying().(*types.Pointer).Elem()
		for depth := 0; depth < 20 && err.t != nil; depth++ {
			ok := false
			if it, isI := pt.Underlying().(*types.Interface); isI {
				ok = m.implements(err.t, it)
			} else {
				ok = types.Identical(err.t, pt)
			}
			if ok {
				if types.IsInterface(pt) {
					m.store(tgt.v.(*Value), err)
				} else {
					m.store(tgt.v.(*Value), err.v)
				}
				return true
			}
			f := m.eng.lookupMethod(err.t, nil, "Unwrap")
			if f == nil {
				return false
			}
			e, isE := m.callFn(fr, f, []Value{err.v}, nil).(Iface)
			if !isE {
				return false
			}
			err = e
		}
		return false
	}
	// fmt
	intrinsics["fmt.Sprintf"] = func(m *Machine, fr *frame, a []Value) Value { return m.sprintf(fr, a[0], a[1].(Slice)) }
	intrinsics["fmt.Sprint"] = func(m *Machine, fr *frame, a []Value) Value {
		var out []Value
		for _, x := range a[0].(Slice) {
			out = append(out, strBytes(m.fmtValue(fr, x.(Iface), 'v', ""))...)
		}
		return mkStr(out)
	}
	intrinsics["fmt.Sprintln"] = func(m *Machine, fr *frame, a []Value) Value {
		var out []Value
		for i, x := range a[0].(Slice) {
			if i > 0 {
				out = append(out, C(' '))
			}
			out = append(out, strBytes(m.fmtValue(fr, x.(Iface), 'v', ""))...)
		}
		return mkStr(append(out, C('\n')))
	}
	intrinsics["fmt.Errorf"] = func(m *Machine, fr *frame, a []Value) Value {
		m.inErrf++
		s := func() Value { defer func() { m.inErrf-- }(); return m.sprintf(fr, a[0], a[1].(Slice)) }()
		if f, ok := a[0].(string); ok && strings.Contains(f, "%w") {
			for _, x := range a[1].(Slice) {
				i := x.(Iface)
				if i.t != nil && m.eng.lookupMethod(i.t, nil, "Error") != nil {
					if t := m.eng.typeByName("fmt", "wrapError"); t != nil {
						p := new(Value)
						*p = Struct{s, i}
						return Iface{types.NewPointer(t), p}
					}
				}
			}
		}
		return m.errorStr(s)
	}
	// time
	intrinsics["time.Now"] = func(m *Machine, fr *frame, a []Value) Value {
		return m.timeToStruct(m.eng.now())
	}
	intrinsics["time.now"] = func(m *Machine, fr *frame, a []Value) Value {
		t := m.eng.now()
		return Tuple{C(uint64(t.Unix())), C(0), C(1)}
	}
	intrinsics["time.runtimeNano"] = func(m *Machine, fr *frame, a []Value) Value { return C(1) }
	intrinsics["time.Since"] = func(m *Machine, fr *frame, a []Value) Value { return C(1000) }
	intrinsics["(*time.Location).get"] = func(m *Machine, fr *frame, a []Value) Value {
		g := m.eng.pkgByPath["time"].Var("utcLoc")
		return m.global(g)
	}
	intrinsics["(time.Time).UTC"] = ident(0)
	intrinsics["(time.Time).Local"] = ident(0)
	// os / env
	intrinsics["os.LookupEnv"] = func(m *Machine, fr *frame, a []Value) Value { return Tuple{"", false} }
	intrinsics["(*internal/godebug.Setting).Value"] = func(m *Machine, fr *frame, a []Value) Value { return "" }
	intrinsics["(*internal/godebug.Setting).Name"] = func(m *Machine, fr *frame, a []Value) Value { return "" }
	intrinsics["internal/godebug.New"] = func(m *Machine, fr *frame, a []Value) Value {
		p := new(Value)
		*p = m.zero(m.eng.typeByName("internal/godebug", "Setting"))
		return p
	}
	intrinsics["internal/godebug.setUpdate"] = nop
	intrinsics["internal/godebug.registerMetric"] = nop
	// sort.Slice & friends
	sortSlice := func(m *Machine, fr *frame, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !m.branchV(m.call(fr, a[1], []Value{C(j), C(j - 1)})) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				m.setCell(&s[j], y)
				m.setCell(&s[j-1], x)
			}
		}
		return nil
	}
	intrinsics["sort.Slice"] = sortSlice
	intrinsics["sort.SliceStable"] = sortSlice
	// context.WithValue without reflectlite
	intrinsics["context.WithValue"] = func(m *Machine, fr *frame, a []Value) Value {
		t := m.eng.typeByName("context", "valueCtx")
		p := new(Value)
		*p = Struct{a[0], a[1], a[2]}
		return Iface{types.NewPointer(t), p}
	}
	// uuid: distinct, unpredictable identifiers
	newUUID := func(m *Machine, fr *frame, a []Value) Value {
		m.path.counters["uuid"]++
		n := m.path.counters["uuid"]
		r := make(Array, 16)
		b := []byte{0x5e, 0x55, 0x10, 0x4e, 0x1d, 0, 0x40, 0, 0x80, 0xa1, 0xb2, 0xc3, 0xd4, 0xe5, byte(n >> 8), byte(n)}
		for i := range r {
			r[i] = C(b[i])
		}
		return r
	}
	intrinsics["github.com/google/uuid.NewRandom"] = func(m *Machine, fr *frame, a []Value) Value { return Tuple{newUUID(m, fr, a), Iface{}} }
	intrinsics["github.com/google/uuid.New"] = newUUID
	// reflect bits
	intrinsics["reflect.TypeOf"] = func(m *Machine, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return Iface{m.eng.placeholder, &NativeV{&rtypeObj{i.t}}}
	}
	intrinsics["reflect.DeepEqual"] = func(m *Machine, fr *frame, a []Value) Value {
		return m.deepEq(a[0], a[1])
	}
	intrinsics["internal/reflectlite.TypeOf"] = intrinsics["reflect.TypeOf"]
	intrinsics["os.MkdirAll"] = func(m *Machine, fr *frame, a []Value) Value { return Iface{} }
	intrinsics["os.Getwd"] = func(m *Machine, fr *frame, a []Value) Value { return Tuple{"/scratch", Iface{}} }
	intrinsics["net/textproto.CanonicalMIMEHeaderKey"] = func(m *Machine, fr *frame, a []Value) Value {
		s, ok := a[0].(string)
		if !ok {
			panic(unsup("symbolic header name"))
		}
		return canonHeader(s)
	}
	intrinsics["net/http.CanonicalHeaderKey"] = intrinsics["net/textproto.CanonicalMIMEHeaderKey"]
	// base64 with symbolic-safe fallback through interpretation
	b64 := map[string]*base64.Encoding{"StdEncoding": base64.StdEncoding, "URLEncoding": base64.URLEncoding, "RawStdEncoding": base64.RawStdEncoding, "RawURLEncoding": base64.RawURLEncoding}
	_ = b64
	intrinsics["encoding/hex.DecodeString"] = func(m *Machine, fr *frame, a []Value) Value {
		s, ok := a[0].(string)
		if !ok {
			return fallThrough{}
		}
		b, err := hex.DecodeString(s)
		if b == nil {
			b = []byte{}
		}
		return Tuple{bytesToSlice(b), m.mkError(err)}
	}
	intrinsics["(*strings.Builder).copyCheck"] = nop
	intrinsics["internal/bytealg.init"] = nop
	intrinsics["internal/cpu.Initialize"] = nop
	intrinsics["runtime.fastrand"] = func(m *Machine, fr *frame, a []Value) Value { return C(4) }
	intrinsics["math/rand.Uint64"] = func(m *Machine, fr *frame, a []Value) Value { return C(0x1122334455667788) }
	intrinsics["math/rand.runtime_rand"] = intrinsics["math/rand.Uint64"]
	intrinsics["internal/godebug.write"] = nop
	initVX()
	initCrypto()
	initCBOR()
	initJSON()
	reflectInit()
}

func canonHeader(s string) string {
	b := []byte(s)
	up := true
	for i, c := range b {
		if up && c >= 'a' && c <= 'z' {
			b[i] = c - 32
		} else if !up && c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
		up = c == '-'
	}
	return string(b)
}

type rtypeObj struct{ t types.Type }

func (r *rtypeObj) Call(m *Machine, fr *frame, name string, a []Value) Value {
	switch name {
	case "String", "Name":
		return r.t.String()
	case "Kind":
		return C(uint64(kindOf(r.t)))
	case "Elem":
		return Iface{m.eng.placeholder, &NativeV{&rtypeObj{elemOf(r.t)}}}
	case "Comparable":
		return types.Comparable(r.t)
	}
	panic(unsup("reflect.Type.%s", name))
}

func (e *Engine) now() time.Time { return e.start }

func (m *Machine) deepEq(a, b Value) Value {
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return false
		}
		if x.t == nil {
			return true
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		return m.deepEq(x.v, y.v)
	case Struct:
		var acc Value = true
		for i := range x {
			acc = m.andV(acc, m.deepEq(x[i], b.(Struct)[i]))
		}
		return acc
	case Array:
		var acc Value = true
		for i := range x {
			acc = m.andV(acc, m.deepEq(x[i], b.(Array)[i]))
		}
		return acc
	case Slice:
		y := b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		var acc Value = true
		for i := range x {
			acc = m.andV(acc, m.deepEq(x[i], y[i]))
		}
		return acc
	case *Value:
		y, ok := b.(*Value)
		if x == y {
			return true
		}
		if !ok || x == nil || y == nil {
			return false
		}
		return m.deepEq(*x, *y)
	case *MapV:
		y := b.(*MapV)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil {
			return true
		}
		if x.n != y.n {
			return false
		}
		var acc Value = true
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			f := m.mapFind(y, e.k)
			if f == nil {
				return false
			}
			acc = m.andV(acc, m.deepEq(e.v, f.v))
		}
		return acc
	}
	return m.eq(a, b)
}

// ---------- formatting
func (m *Machine) sprintf(fr *frame, format Value, args []Value) Value {
	f, ok := format.(string)
	if !ok {
		f = renderBytes(strBytes(format))
	}
	var out []Value
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, C(f[i]))
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			out = append(out, strBytes("%!(NOVERB)")...)
			break
		}
		verb := f[j]
		flags := f[i+1 : j]
		i = j
		if verb == '%' {
			out = append(out, C('%'))
			continue
		}
		if ai >= len(args) {
			out = append(out, strBytes("%!"+string(verb)+"(MISSING)")...)
			continue
		}
		out = append(out, strBytes(m.fmtValue(fr, args[ai].(Iface), verb, flags))...)
		ai++
	}
	return mkStr(out)
}

// quote is strconv.Quote of a short string with symbolic bytes.
func (m *Machine) quote(b []Value) []Value {
	out := []Value{C('"')}
	k := func(v uint64) *Term { return m.bank.Const(v, 8) }
	for i, x := range b {
		if c, ok := x.(C); ok && c < 0x80 {
			q := strconv.Quote(string(rune(c)))
			out = append(out, strBytes(q[1:len(q)-1])...)
			continue
		}
		t := m.T(x, 8)
		in := func(lo, hi uint64) bool {
			return m.branch(m.bank.And(m.bank.Not(m.bank.Bin(OULT, t, k(lo))), m.bank.Not(m.bank.Bin(OULT, k(hi), t))))
		}
		switch {
		case in(0x20, 0x7e):
			if m.branch(m.bank.Or(m.bank.Eq(t, k('"')), m.bank.Eq(t, k('\\')))) {
				out = append(out, C('\\'))
			}
			out = append(out, x)
			continue
		case in(7, 13):
			c := m.concretize(t)
			out = append(out, C('\\'), C("abtnvfr"[c-7]))
			continue
		case in(0xc2, 0xf4):
			if i+1 < len(b) {
				n := m.T(b[i+1], 8)
				if m.branch(m.bank.Eq(m.bank.Bin(OAnd, n, k(0xc0)), k(0x80))) {
					panic(unsup("quoting symbolic non-ASCII text"))
				}
			}
		}
		out = append(out, C('\\'), C('x'))
		out = append(out, strBytes(m.hexStr([]Value{x}))...)
	}
	return append(out, C('"'))
}

func (m *Machine) fmtValue(fr *frame, x Iface, verb byte, flags string) Value {
	if x.t == nil {
		if verb == 'v' || verb == 's' || verb == 'w' {
			if verb == 'v' {
				return "<nil>"
			}
			return "%!" + string(verb) + "(<nil>)"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return x.t.String()
	}
	if verb == 'v' || verb == 's' || verb == 'w' || verb == 'q' {
		for _, n := range []string{"Error", "String"} {
			if f := m.eng.lookupMethod(x.t, nil, n); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
				if isNilPtr(x.v) {
					return "<nil>"
				}
				return m.callFn(fr, f, []Value{x.v}, nil)
			}
		}
	}
	w, sg, isInt := width(x.t)
	switch v := x.v.(type) {
	case string, *SStr:
		switch verb {
		case 'v', 's', 'w':
			return m.pad(v, flags)
		case 'q':
			if s, ok := v.(string); ok {
				return strconv.Quote(s)
			}
			if b := strBytes(v); len(b) <= 4 {
				return mkStr(m.quote(b))
			}
		case 'x':
			return m.hexStr(strBytes(v))
		}
		return v
	case bool:
		return fmt.Sprint(v)
	case float64:
		return fmt.Sprintf("%"+flags+string(verb), v)
	case C:
		if !isInt {
			break
		}
		if verb == 'w' {
			verb = 'v'
		}
		if sg {
			return fmt.Sprintf("%"+flags+string(verb), sext(uint64(v), w))
		}
		return fmt.Sprintf("%"+flags+string(verb), uint64(v))
	case *Term:
		if m.inErrf > 0 {
			return "?" // symbolic numbers inside error texts stay opaque
		}
		if v.w == 0 {
			if m.branch(v) {
				return "true"
			}
			return "false"
		}
		switch verb {
		case 'd', 'v':
			if flags == "" {
				return m.decimal(v, sg)
			}
		}
		c := m.concretize(v)
		return m.fmtValue(fr, Iface{x.t, C(c)}, verb, flags)
	case Slice:
		if s, ok := x.t.Underlying().(*types.Slice); ok {
			if ew, _, ok := width(s.Elem()); ok && ew == 8 && (verb == 'x' || verb == 'X') {
				return m.hexStr(v)
			}
			if ew, _, ok := width(s.Elem()); ok && ew == 8 && verb == 's' {
				return mkStr(v)
			}
		}
	case Array:
		if s, ok := x.t.Underlying().(*types.Array); ok {
			if ew, _, ok := width(s.Elem()); ok && ew == 8 && (verb == 'x' || verb == 'X') {
				return m.hexStr(v)
			}
		}
	}
	// generic rendering (diagnostics only)
	return "{" + x.t.String() + "}"
}

func (m *Machine) pad(v Value, flags string) Value {
	if flags == "" {
		return v
	}
	if s, ok := v.(string); ok {
		return fmt.Sprintf("%"+flags+"s", s)
	}
	return v
}

func (m *Machine) hexStr(b []Value) Value {
	var out []Value
	for _, x := range b {
		t := m.T(x, 8)
		out = append(out, m.hexDigit(m.bank.Extract(t, 4, 4)), m.hexDigit(m.bank.Extract(t, 0, 4)))
	}
	return mkStr(out)
}
func (m *Machine) hexDigit(n *Term) Value {
	x := m.bank.ZExt(n, 8)
	lt := m.bank.Bin(OULT, x, m.bank.Const(10, 8))
	return V(m.bank.Ite(lt, m.bank.Bin(OAdd, x, m.bank.Const('0', 8)), m.bank.Bin(OAdd, x, m.bank.Const('a'-10, 8))))
}

func (m *Machine) decimal(t *Term, sg bool) Value {
	var out []Value
	if sg {
		if m.branch(m.bank.Bin(OSLT, t, m.bank.Const(0, t.w))) {
			out = append(out, C('-'))
			t = m.bank.Un(ONeg, t)
		}
	}
	mx := t.mx
	if mx > 99999 && m.branch(m.bank.Bin(OULT, t, m.bank.Const(100000, t.w))) {
		mx = 99999
	}
	if mx > 99999 {
		return mkStr(append(out, strBytes(strconv.FormatUint(m.concretize(t), 10))...))
	}
	n := 1
	p := uint64(10)
	for p <= mx && !m.branch(m.bank.Bin(OULT, t, m.bank.Const(p, t.w))) {
		n++
		p *= 10
	}
	ds := make([]Value, n)
	div := uint64(1)
	for i := n - 1; i >= 0; i-- {
		d := m.bank.Bin(OURem, m.bank.Bin(OUDiv, t, m.bank.Const(div, t.w)), m.bank.Const(10, t.w))
		if t.w >= 8 {
			ds[i] = V(m.bank.Bin(OAdd, m.bank.Extract(d, 0, 8), m.bank.Const('0', 8)))
		}
		div *= 10
	}
	return mkStr(append(out, ds...))
}

var _ = bytes.Equal
var _ token.Token

// unique.Make interns concrete values.
func init() {
	intrinsics["unique.Make"] = func(m *Machine, fr *frame, a []Value) Value {
		var conc func(v Value) bool
		conc = func(v Value) bool {
			switch x := v.(type) {
			case C, bool, string:
				return true
			case Struct:
				for _, e := range x {
					if !conc(e) {
						return false
					}
				}
				return true
			}
			return false
		}
		if !conc(a[0]) {
			panic(unsup("unique.Make of a symbolic value"))
		}
		u, _ := m.local["unique"].(map[string]*Value)
		if u == nil {
			u = map[string]*Value{}
			m.local["unique"] = u
		}
		k := fmt.Sprintf("%#v", a[0])
		p := u[k]
		if p == nil {
			p = new(Value)
			*p = copyVal(a[0])
			u[k] = p
		}
		return Struct{p}
	}
}
