// Package vx is the harness interface. Symbolically every function below is interpreted by
// the engine; natively it replays a recorded case.
package vx

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"strconv"
	"strings"
)

// Native is the dynamic type the engine gives to its own objects.
type Native struct{ _ int }

type input struct {
	Name string `json:"n"`
	Kind string `json:"k"`
	Val  string `json:"v"`
}
type caseT struct {
	Harness string   `json:"harness"`
	Inputs  []input  `json:"inputs"`
	Rands   []string `json:"rands"`
	ECKeys  []string `json:"eckeys"`
	Obs     []string `json:"obs"`
	Label   string   `json:"label"`
	Tier    string   `json:"tier"`
}
type result struct {
	Status string   `json:"status"`
	Label  string   `json:"label"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

var cur *caseT
var pos, rpos, kpos int
var obs []string
var reached = map[string]bool{}

type assertFail struct{ label string }
type assumeFail struct{}

func next(name, kind string) string {
	if cur == nil || pos >= len(cur.Inputs) {
		return ""
	}
	in := cur.Inputs[pos]
	pos++
	if in.Name != name || in.Kind != kind {
		panic(fmt.Sprintf("vx: input %d is %s/%s, harness asks %s/%s", pos-1, in.Name, in.Kind, name, kind))
	}
	return in.Val
}
func num(name, kind string) uint64 {
	s := next(name, kind)
	if s == "" {
		return 0
	}
	v, err := strconv.ParseUint(s, 16, 64)
	if err != nil {
		panic(err)
	}
	return v
}

func Byte(name string) byte  { return byte(num(name, "int")) }
func U16(name string) uint16 { return uint16(num(name, "int")) }
func U32(name string) uint32 { return uint32(num(name, "int")) }
func U64(name string) uint64 { return num(name, "int") }
func Bool(name string) bool  { return num(name, "int") == 1 }

// Int is a symbolic integer in [lo,hi].
func Int(name string, lo, hi int) int { return int(num(name, "int")) }

// Choose explores each of 0..n-1 as a separate case.
func Choose(name string, n int) int { return int(num(name, "choose")) }

// Bytes is n symbolic bytes.
func Bytes(name string, n int) []byte {
	s := next(name, "bytes")
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	r := make([]byte, n)
	copy(r, b)
	return r
}

func Assume(b bool) {
	if !b {
		panic(assumeFail{})
	}
}

// Assert is an obligation.
func Assert(b bool, label string) {
	if !b {
		panic(assertFail{label})
	}
}
func Reach(label string) { reached[label] = true }

// Expect declares that some input and random draw must reach the label.
func Expect(label string) {}

// Observe records a value that the native replay must reproduce.
func Observe(label string, v any) {
	var s string
	switch x := v.(type) {
	case []byte:
		s = hex.EncodeToString(x)
	case string:
		s = hex.EncodeToString([]byte(x))
	case bool, int, uint, uint8, uint16, uint32, uint64, int8, int16, int32, int64:
		s = fmt.Sprint(x)
	default:
		panic("vx.Observe: unsupported type")
	}
	obs = append(obs, label+"="+s)
}

// Try runs f and reports whether it panicked.
func Try(f func()) (panicked bool, msg string) {
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
			return
		case assertFail, assumeFail:
			panic(r)
		default:
			panicked = true
			if e, ok := x.(error); ok {
				msg = e.Error()
			} else {
				msg = fmt.Sprint(x)
			}
		}
	}()
	f()
	return
}

func tier() string {
	if cur != nil && cur.Tier != "" {
		return cur.Tier
	}
	return "quick"
}

// Bound is a tier-dependent bound, recorded in the evidence.
func Bound(name string, quick, thorough int) int {
	if tier() == "thorough" {
		return thorough
	}
	return quick
}

// Assumption records an assumption of the check in its evidence.
func Assumption(s string) {}

// Option sets an engine option for this path.
func Option(name string, v int) {}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
// IteByte is a if c, else b.
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}
func EqBytes(a, b []byte) bool {
	return bytes.Equal(a, b)
}
func EqStr(a, b string) bool { return a == b }

// Symbolic tells whether the engine is running the harness.
func Symbolic() bool { return false }

// ---- native driver
type randReader struct{ real io.Reader }

func (r randReader) Read(b []byte) (int, error) {
	if cur == nil {
		return r.real.Read(b)
	}
	lib := fromLibrary()
	if (lib == "crypto/ecdsa.GenerateKey" || lib == "crypto/rsa.GenerateKey") && len(b) > 1 && kpos < len(cur.ECKeys) {
		// a generated scalar or prime; the one byte reads before it are meant to be ignored
		v, err := hex.DecodeString(cur.ECKeys[kpos])
		if err == nil && len(v) == len(b) {
			kpos++
			copy(b, v)
			return len(b), nil
		}
	}
	if rpos >= len(cur.Rands) || lib != "" {
		return r.real.Read(b)
	}
	v, err := hex.DecodeString(cur.Rands[rpos])
	if err != nil || len(v) != len(b) {
		return r.real.Read(b)
	}
	rpos++
	copy(b, v)
	return len(b), nil
}

// fromLibrary is the outermost library function that is reading.
func fromLibrary() (lib string) {
	var pcs [32]uintptr
	n := runtime.Callers(3, pcs[:])
	fs := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fs.Next()
		for _, p := range []string{"crypto/ecdsa.", "crypto/rsa.", "crypto/x509.", "crypto/elliptic.", "github.com/dgraph-io/", "github.com/google/uuid"} {
			if strings.HasPrefix(f.Function, p) {
				lib = f.Function
			}
		}
		if !more {
			return
		}
	}
}

func runOne(hs map[string]func(), c *caseT) (res result) {
	cur, pos, rpos, kpos, obs = c, 0, 0, 0, nil
	defer func() {
		res.Obs = obs
		r := recover()
		switch x := r.(type) {
		case nil:
			if res.Status == "" {
				res.Status = "ok"
			}
		case assertFail:
			res.Status, res.Label = "assert", x.label
		case assumeFail:
			res.Status = "assume"
		default:
			res.Status = "panic"
			buf := make([]byte, 1<<13)
			n := runtime.Stack(buf, false)
			res.Msg = fmt.Sprint(x) + "\n" + string(buf[:n])
		}
	}()
	h := hs[c.Harness]
	if h == nil {
		res.Status = "no such harness " + c.Harness
		return
	}
	h()
	return
}

// Main replays cases: args are the case file, the result file and a retry count for
// violations whose reproduction depends on real randomness.
func Main(hs map[string]func()) {
	log.SetOutput(io.Discard)
	rand.Reader = randReader{rand.Reader}
	args := append([]string{}, os.Args...) // harnesses may set their own
	b, err := os.ReadFile(args[1])
	if err != nil {
		panic(err)
	}
	var cs []*caseT
	if err := json.Unmarshal(b, &cs); err != nil {
		panic(err)
	}
	tries := 1
	if len(args) > 3 {
		tries, _ = strconv.Atoi(args[3])
	}
	if old := os.Stdout; old != nil {
		os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	}
	var out []result
	for _, c := range cs {
		var r result
		n := tries
		if l, ok := strings.CutPrefix(c.Label, "expect:"); ok {
			r.Status = "unreached"
			for i := 0; i < n && r.Status == "unreached"; i++ {
				x := runOne(hs, c)
				switch {
				case reached[l]:
					r.Status = "reached"
				case x.Status != "ok" && x.Status != "assume" && x.Status != "assert":
					r = x
				}
			}
			out = append(out, r)
			continue
		}
		for i := 0; i < n; i++ {
			r = runOne(hs, c)
			if r.Status == "assert" || r.Status == "panic" {
				break
			}
			if i == 0 && retryMore > 0 {
				n = retryMore
			}
		}
		out = append(out, r)
	}
	ob, _ := json.Marshal(out)
	if err := os.WriteFile(args[2], ob, 0o644); err != nil {
		panic(err)
	}
}

var retryMore int

// Retry asks for more native attempts (real randomness decides).
func Retry(n int) { retryMore = n }
