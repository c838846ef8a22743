package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type Intrinsic func(m *Machine, fr *frame, args []Value) Value

type opKind uint8

const (
	okSlot opKind = iota
	okConst
	okGlobal
	okZero // aggregate constant: fresh zero
)

type opnd struct {
	kind opKind
	slot int
	v    Value
	g    *ssa.Global
	t    types.Type
}

type cinstr struct {
	in  ssa.Instruction
	dst int
	ops []opnd
	w   uint8 // width of result/operand for ints
	sg  bool
	aux any
}

type cfunc struct {
	fn     *ssa.Function
	nslots int
	blocks [][]cinstr
	intr   Intrinsic
	redir  *ssa.Function
	params []int
	free   []int
	noBody bool
	repo   bool
	rec    int
}

type frame struct {
	m         *Machine
	caller    *frame
	cf        *cfunc
	regs      []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []deferred
	result    Value
	panicking bool
	panicv    *targetPanic
	recovered bool
	pos       token.Pos
}

type deferred struct {
	fn   Value
	args []Value
}

type targetPanic struct {
	v   Iface
	msg string
	pos string
}

var debugForks = os.Getenv("VX_FORKS") != ""
var debugQueries = os.Getenv("VX_FORKS") == "2"
var forkSites = map[string]int{}
var forkMu sync.Mutex

func (m *Machine) fork() {
	if !debugForks || m.cur == nil {
		return
	}
	s := m.stack(m.cur)
	if len(s) > 3 {
		s = s[:3]
	}
	forkMu.Lock()
	forkSites[strings.Join(s, " < ")]++
	forkMu.Unlock()
}

func printForks() {
	var l []string
	for k, n := range forkSites {
		l = append(l, fmt.Sprintf("%8d %s", n, strings.ReplaceAll(k, "github.com/fido-alliance/iot-fdo-conformance-tools/", "")))
	}
	sort.Sort(sort.Reverse(sort.StringSlice(l)))
	for i, x := range l {
		if i < 25 {
			fmt.Println("fork", x)
		}
	}
}

var debugPanics = os.Getenv("VX_PANICS") != ""

type pathAbort struct{ reason string }

type assertInfo struct {
	memo map[types.Type]bool
}

func (m *Machine) compile(fn *ssa.Function) *cfunc {
	if cf, ok := m.cfuncs[fn]; ok {
		return cf
	}
	cf := &cfunc{fn: fn}
	m.cfuncs[fn] = cf
	name := fn.String()
	if fn.Origin() != nil {
		if i, ok := intrinsics[fn.Origin().String()]; ok {
			cf.intr = i
		}
	}
	if i, ok := intrinsics[name]; ok {
		cf.intr = i
	} else if r, ok := m.eng.redirects[name]; ok {
		cf.redir = r
	} else if n, ok := natives[name]; ok && cf.intr == nil {
		cf.intr = m.wrapNative(fn, n, len(fn.Blocks) > 0)
	}
	cf.repo = m.eng.isRepo(fn)
	if len(fn.Blocks) == 0 {
		cf.noBody = true
		return cf
	}
	slots := map[ssa.Value]int{}
	alloc := func(v ssa.Value) int {
		s := cf.nslots
		slots[v] = s
		cf.nslots++
		return s
	}
	for _, p := range fn.Params {
		cf.params = append(cf.params, alloc(p))
	}
	for _, p := range fn.FreeVars {
		cf.free = append(cf.free, alloc(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	var buf [16]*ssa.Value
	for _, b := range fn.Blocks {
		var cis []cinstr
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			rands := in.Operands(buf[:0])
			ci.ops = make([]opnd, len(rands))
			for i, r := range rands {
				if *r == nil {
					continue
				}
				ci.ops[i] = m.mkOpnd(*r, slots)
			}
			switch x := in.(type) {
			case *ssa.BinOp:
				ci.w, ci.sg, _ = width(x.X.Type())
			case *ssa.UnOp:
				ci.w, ci.sg, _ = width(x.X.Type())
			case *ssa.TypeAssert:
				ci.aux = &assertInfo{memo: map[types.Type]bool{}}
			}
			cis = append(cis, ci)
		}
		cf.blocks = append(cf.blocks, cis)
	}
	return cf
}

func (m *Machine) mkOpnd(v ssa.Value, slots map[ssa.Value]int) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		cv, agg := m.constVal(x)
		if agg {
			return opnd{kind: okZero, t: x.Type()}
		}
		return opnd{kind: okConst, v: cv}
	case *ssa.Global:
		return opnd{kind: okGlobal, g: x}
	case *ssa.Function:
		return opnd{kind: okConst, v: x}
	case *ssa.Builtin:
		return opnd{kind: okConst, v: x}
	}
	s, ok := slots[v]
	if !ok {
		panic(unsup("no slot for %s", v))
	}
	return opnd{kind: okSlot, slot: s}
}

func (m *Machine) constVal(c *ssa.Const) (Value, bool) {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return nil, true
		}
		return m.zero(c.Type()), false
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		panic(unsup("typeparam const"))
	}
	b, ok := t.(*types.Basic)
	if !ok {
		panic(unsup("const of type %s", c.Type()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value), false
	case b.Info()&types.IsInteger != 0:
		w, sg, _ := width(b)
		if sg {
			return C(uint64(c.Int64()) & mask(w)), false
		}
		return C(c.Uint64() & mask(w)), false
	case b.Info()&types.IsFloat != 0:
		return c.Float64(), false
	case b.Info()&types.IsComplex != 0:
		return c.Complex128(), false
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value), false
		}
		return string(rune(c.Int64())), false
	}
	panic(unsup("const %s", c))
}

func (fr *frame) get(o *opnd) Value {
	switch o.kind {
	case okSlot:
		return fr.regs[o.slot]
	case okConst:
		return o.v
	case okGlobal:
		return fr.m.global(o.g)
	case okZero:
		return fr.m.zero(o.t)
	}
	return nil
}

func (m *Machine) global(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	m.ensureInit(g.Pkg)
	if p, ok := m.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = m.zero(g.Type().Underlying().(*types.Pointer).Elem())
	m.globals[g] = p
	return p
}

// ensureInit runs a package's initialiser (own variables only) lazily, outside of the undo trail.
func (m *Machine) ensureInit(pkg *ssa.Package) {
	if pkg == nil || m.inited[pkg] {
		return
	}
	m.inited[pkg] = true
	for _, mem := range pkg.Members {
		if g, ok := mem.(*ssa.Global); ok {
			if _, ok := m.globals[g]; !ok {
				p := new(Value)
				*p = m.zero(g.Type().Underlying().(*types.Pointer).Elem())
				m.globals[g] = p
			}
		}
	}
	if skipInit[pkg.Pkg.Path()] {
		// error values are distinct and not nil
		for n, mem := range pkg.Members {
			if g, ok := mem.(*ssa.Global); ok && strings.HasPrefix(n, "Err") && types.Identical(g.Type().Underlying().(*types.Pointer).Elem(), types.Universe.Lookup("error").Type()) {
				t := pkg.Pkg.Name() + ": " + n
				if n == "ErrKeyNotFound" {
					t = "Key not found"
				}
				*m.globals[g] = m.errorStr(t)
			}
		}
		if f, ok := initHooks[pkg.Pkg.Path()]; ok {
			f(m, pkg)
		}
		return
	}
	init := pkg.Func("init")
	if init == nil {
		return
	}
	saveT, saveP, saveI, saveD := m.trailOn, m.path, m.initDepth, m.depth
	m.trailOn = false
	m.initDepth++
	defer func() {
		m.trailOn, m.path, m.initDepth, m.depth = saveT, saveP, saveI, saveD
	}()
	m.callFn(nil, init, nil, nil)
	if f, ok := initHooks[pkg.Pkg.Path()]; ok {
		f(m, pkg)
	}
}

func (m *Machine) call(caller *frame, fnv Value, args []Value) Value {
	switch f := fnv.(type) {
	case *ssa.Function:
		if f == nil {
			panic(m.rtPanicAt(caller, "invalid memory address or nil pointer dereference"))
		}
		return m.callFn(caller, f, args, nil)
	case *Closure:
		return m.callFn(caller, f.fn, args, f.env)
	case *ssa.Builtin:
		return m.builtin(caller, f, args)
	case *NativeV:
		if g, ok := f.v.(func(m *Machine, fr *frame, args []Value) Value); ok {
			return g(m, caller, args)
		}
	}
	panic(unsup("call of %T", fnv))
}

func (m *Machine) callFn(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	cf := m.compile(fn)
	if cf.intr != nil {
		r := cf.intr(m, caller, args)
		if _, fall := r.(fallThrough); !fall {
			return r
		}
	}
	if cf.redir != nil {
		return m.callFn(caller, cf.redir, args, nil)
	}
	if cf.noBody {
		if m.initDepth > 0 {
			return m.zero(fn.Signature.Results())
		}
		panic(unsup("no body: %s", fn))
	}
	if m.initDepth > 0 && caller != nil && fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != caller.cf.fn.Pkg {
		return nil // dependency initialisers run lazily
	}
	if fn.Pkg != nil && !m.inited[fn.Pkg] && fn.Synthetic == "" {
		m.ensureInit(fn.Pkg)
	} else if o := fn.Origin(); o != nil && o.Pkg != nil && !m.inited[o.Pkg] {
		m.ensureInit(o.Pkg)
	}
	m.depth++
	if m.depth > 2000 {
		m.depth = 0
		panic(pathAbort{"call depth bound"})
	}
	fr := &frame{m: m, caller: caller, cf: cf, regs: make([]Value, cf.nslots)}
	for i, s := range cf.params {
		fr.regs[s] = args[i]
	}
	for i, s := range cf.free {
		fr.regs[s] = env[i]
	}
	if cf.repo && m.path != nil {
		m.path.funcs[fn] = true
	}
	fr.block = fn.Blocks[0]
	d := m.depth
	for fr.block != nil {
		m.runFrame(fr)
		m.depth = d
	}
	m.depth = d - 1
	return fr.result
}

// runFrame executes until the function returns, handling panics with defers.
func (m *Machine) runFrame(fr *frame) {
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		switch p := r.(type) {
		case targetPanic:
			fr.panicking = true
			fr.panicv = &p
		case unsupported:
			if m.initDepth > 0 {
				// tolerate inside package initialisers: abandon this function
				m.note("init: " + p.msg + " in " + fr.cf.fn.String())
				fr.result = m.zero(fr.cf.fn.Signature.Results())
				fr.block = nil
				return
			}
			if p.stack == "" {
				p.stack = strings.Join(m.stack(fr), " < ")
			}
			panic(p)
		case pathAbort:
			if m.eng.verbose && strings.HasPrefix(p.reason, "diverged") && !m.path.traced {
				m.path.traced = true
				fmt.Println(p.reason, strings.Join(m.stack(fr), " < "))
			}
			panic(r)
		default:
			panic(r)
		}
		m.runDefers(fr)
		fr.block = fr.cf.fn.Recover
		if fr.block == nil {
			fr.result = m.zero(fr.cf.fn.Signature.Results())
		}
	}()
	for {
		cis := fr.cf.blocks[fr.block.Index]
		for i := range cis {
			ci := &cis[i]
			m.steps++
			if m.steps > m.maxSteps && m.initDepth == 0 {
				panic(pathAbort{"step bound"})
			}
			switch m.exec(fr, ci) {
			case kNext:
			case kReturn:
				fr.block = nil
				return
			case kJump:
				goto next
			}
		}
		panic(unsup("block fell through"))
	next:
	}
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if !ok {
					r := recover()
					if p, is := r.(targetPanic); is {
						fr.panicking = true
						fr.panicv = &p
					} else {
						panic(r)
					}
				}
			}()
			m.call(fr, d.fn, d.args)
			ok = true
		}()
	}
	if fr.panicking {
		panic(*fr.panicv)
	}
}

type cont int

const (
	kNext cont = iota
	kReturn
	kJump
)

func (m *Machine) rtPanic(msg string) targetPanic {
	var t types.Type = types.Typ[types.String]
	if m.eng.rtErr != nil {
		t = m.eng.rtErr
	}
	return targetPanic{v: Iface{t, msg}, msg: "runtime error: " + msg}
}

func (m *Machine) posOf(fr *frame) string {
	for f := fr; f != nil; f = f.caller {
		if f.pos.IsValid() {
			p := m.eng.prog.Fset.Position(f.pos)
			return fmt.Sprintf("%s:%d", trimRepo(p.Filename), p.Line)
		}
	}
	return "?"
}

func (m *Machine) stack(fr *frame) []string {
	var s []string
	for f := fr; f != nil && len(s) < 12; f = f.caller {
		if f.cf == nil || f.cf.fn == nil {
			s = append(s, "?")
			continue
		}
		p := m.eng.prog.Fset.Position(f.pos)
		s = append(s, fmt.Sprintf("%s (%s:%d)", f.cf.fn.String(), trimRepo(p.Filename), p.Line))
	}
	return s
}

func (m *Machine) deref(fr *frame, v Value) *Value {
	switch p := v.(type) {
	case *Value:
		if p == nil {
			panic(m.rtPanicAt(fr, "invalid memory address or nil pointer dereference"))
		}
		return p
	case nil:
		panic(m.rtPanicAt(fr, "invalid memory address or nil pointer dereference"))
	case *NativeV:
		if p == nil {
			panic(m.rtPanicAt(fr, "invalid memory address or nil pointer dereference"))
		}
		panic(unsup("deref of native object %T", p.v))
	}
	panic(unsup("deref of %T", v))
}

func (m *Machine) rtPanicAt(fr *frame, msg string) targetPanic {
	p := m.rtPanic(msg)
	if m.initDepth == 0 || debugPanics {
		p.pos = m.posOf(fr)
		if debugPanics {
			fmt.Println("panic:", msg, strings.Join(m.stack(fr), " < "))
		}
	}
	return p
}

func (m *Machine) exec(fr *frame, ci *cinstr) cont {
	if p := ci.in.Pos(); p.IsValid() {
		fr.pos = p
	}
	if debugForks {
		m.cur = fr
	}
	switch in := ci.in.(type) {
	case *ssa.UnOp:
		fr.regs[ci.dst] = m.unop(fr, in, ci)
	case *ssa.BinOp:
		fr.regs[ci.dst] = m.binop(fr, in.Op, ci.w, ci.sg, in.X.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), in.Y.Type())
	case *ssa.Call:
		fn, args := m.prepCall(fr, &in.Call, ci.ops)
		fr.regs[ci.dst] = m.call(fr, fn, args)
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.ChangeType:
		fr.regs[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = m.conv(fr, in.Type(), in.X.Type(), fr.get(&ci.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = m.conv(fr, in.Type(), in.X.Type(), fr.get(&ci.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.ops[0]).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			panic(m.rtPanicAt(fr, "slice too short for array conversion"))
		}
		if s == nil {
			fr.regs[ci.dst] = (*Value)(nil)
			break
		}
		p := new(Value)
		*p = Array(s[:n:n])
		fr.regs[ci.dst] = p
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{in.X.Type(), copyVal(fr.get(&ci.ops[0]))}
	case *ssa.Extract:
		fr.regs[ci.dst] = fr.get(&ci.ops[0]).(Tuple)[in.Index]
	case *ssa.Slice:
		fr.regs[ci.dst] = m.slice(fr, in, ci)
	case *ssa.Return:
		switch len(ci.ops) {
		case 0:
		case 1:
			fr.result = fr.get(&ci.ops[0])
		default:
			r := make(Tuple, len(ci.ops))
			for i := range ci.ops {
				r[i] = fr.get(&ci.ops[i])
			}
			fr.result = r
		}
		return kReturn
	case *ssa.RunDefers:
		m.runDefers(fr)
	case *ssa.Panic:
		v := fr.get(&ci.ops[0]).(Iface)
		panic(targetPanic{v: v, msg: m.panicText(fr, v), pos: m.posOf(fr)})
	case *ssa.Store:
		addr := fr.get(&ci.ops[0])
		v := fr.get(&ci.ops[1])
		if sp, ok := addr.(*SymPtr); ok {
			m.symStore(sp, v)
			break
		}
		m.store(m.deref(fr, addr), v)
	case *ssa.If:
		succ := 1
		c := fr.get(&ci.ops[0])
		var b bool
		switch x := c.(type) {
		case bool:
			b = x
		case *Term:
			b = m.branch(x)
		}
		if b {
			succ = 0
		}
		m.jump(fr, fr.block.Succs[succ])
		return kJump
	case *ssa.Jump:
		m.jump(fr, fr.block.Succs[0])
		return kJump
	case *ssa.Defer:
		fn, args := m.prepCall(fr, &in.Call, ci.ops)
		if in.DeferStack != nil {
			panic(unsup("defer stack"))
		}
		fr.defers = append(fr.defers, deferred{fn, args})
	case *ssa.Go:
		fn, args := m.prepCall(fr, &in.Call, ci.ops)
		m.spawn(fr, fn, args)
	case *ssa.MakeChan:
		n := m.concTyped(fr.get(&ci.ops[0]), in.Size.Type())
		fr.regs[ci.dst] = &ChanV{cap: int(n)}
	case *ssa.Send:
		ch := fr.get(&ci.ops[0]).(*ChanV)
		m.chanSend(fr, ch, fr.get(&ci.ops[1]))
	case *ssa.Alloc:
		p := new(Value)
		*p = m.zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[ci.dst] = p
	case *ssa.MakeSlice:
		n := int(m.concTyped(fr.get(&ci.ops[0]), in.Len.Type()))
		c := int(m.concTyped(fr.get(&ci.ops[1]), in.Cap.Type()))
		if n < 0 || n > 1<<26 {
			if n > 1<<26 {
				panic(unsup("make slice of %d", n))
			}
			panic(m.rtPanicAt(fr, "makeslice: len out of range"))
		}
		if c < n {
			panic(m.rtPanicAt(fr, "makeslice: cap out of range"))
		}
		if c > 1<<26 {
			panic(unsup("make slice cap %d", c))
		}
		fr.regs[ci.dst] = m.makeSlice(in.Type().Underlying().(*types.Slice).Elem(), n, c)
	case *ssa.MakeMap:
		fr.regs[ci.dst] = newMap()
	case *ssa.Range:
		x := fr.get(&ci.ops[0])
		switch v := x.(type) {
		case *MapV:
			fr.regs[ci.dst] = &rangeIter{m: v}
		case string:
			fr.regs[ci.dst] = &rangeIter{isS: true, s: v}
		case *SStr:
			fr.regs[ci.dst] = &rangeIter{isS: true, str: v.b}
		default:
			panic(unsup("range over %T", x))
		}
	case *ssa.Next:
		fr.regs[ci.dst] = m.next(fr.get(&ci.ops[0]).(*rangeIter), in)
	case *ssa.FieldAddr:
		p := m.deref(fr, fr.get(&ci.ops[0]))
		s, ok := (*p).(Struct)
		if !ok {
			panic(unsup("fieldaddr on %T", *p))
		}
		fr.regs[ci.dst] = &s[in.Field]
	case *ssa.Field:
		fr.regs[ci.dst] = fr.get(&ci.ops[0]).(Struct)[in.Field]
	case *ssa.IndexAddr:
		fr.regs[ci.dst] = m.indexAddr(fr, in, ci)
	case *ssa.Index:
		x := fr.get(&ci.ops[0])
		iw, isg, _ := width(in.Index.Type())
		idx := fr.get(&ci.ops[1])
		var cells []Value
		switch a := x.(type) {
		case Array:
			cells = a
		case string:
			if c, ok := idx.(C); ok {
				i := int64(uint64(c))
				if isg {
					i = sext(uint64(c), iw)
				}
				if i < 0 || i >= int64(len(a)) {
					panic(m.rtPanicAt(fr, fmt.Sprintf("index out of range [%d] with length %d", i, len(a))))
				}
				fr.regs[ci.dst] = C(a[i])
				return kNext
			}
			cells = strBytes(a)
		case *SStr:
			cells = a.b
		default:
			panic(unsup("index %T", x))
		}
		fr.regs[ci.dst] = m.indexVal(fr, cells, idx, iw, isg)
	case *ssa.Lookup:
		fr.regs[ci.dst] = m.lookup(fr, in, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.MapUpdate:
		m.mapSet(fr.get(&ci.ops[0]).(*MapV), fr.get(&ci.ops[1]), fr.get(&ci.ops[2]))
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = m.typeAssert(fr, in, ci.aux.(*assertInfo), fr.get(&ci.ops[0]).(Iface))
	case *ssa.MakeClosure:
		env := make([]Value, len(in.Bindings))
		for i := range env {
			env[i] = fr.get(&ci.ops[i+1])
		}
		fr.regs[ci.dst] = &Closure{in.Fn.(*ssa.Function), env}
	case *ssa.Phi:
		// handled in jump
	case *ssa.Select:
		panic(unsup("select"))
	default:
		panic(unsup("instr %T", in))
	}
	return kNext
}

func (m *Machine) jump(fr *frame, to *ssa.BasicBlock) {
	from := fr.block
	fr.prev = from
	fr.block = to
	cis := fr.cf.blocks[to.Index]
	if len(cis) == 0 {
		return
	}
	if _, ok := cis[0].in.(*ssa.Phi); !ok {
		return
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var tmp [8]Value
	vals := tmp[:0]
	for i := range cis {
		if _, ok := cis[i].in.(*ssa.Phi); !ok {
			break
		}
		vals = append(vals, fr.get(&cis[i].ops[pi]))
	}
	for i, v := range vals {
		fr.regs[cis[i].dst] = v
	}
}

func (m *Machine) prepCall(fr *frame, c *ssa.CallCommon, ops []opnd) (Value, []Value) {
	if c.Method == nil {
		fn := fr.get(&ops[0])
		args := make([]Value, len(c.Args))
		for i := range args {
			args[i] = fr.get(&ops[i+1])
		}
		return fn, args
	}
	recv, ok := fr.get(&ops[0]).(Iface)
	if !ok {
		panic(unsup("invoke on %T", fr.get(&ops[0])))
	}
	if recv.t == nil {
		panic(m.rtPanicAt(fr, "invalid memory address or nil pointer dereference"))
	}
	args := make([]Value, len(c.Args)+1)
	args[0] = recv.v
	for i := range c.Args {
		args[i+1] = fr.get(&ops[i+1])
	}
	if nv, ok := recv.v.(*NativeV); ok {
		if h, ok := nv.v.(nativeObj); ok {
			name := c.Method.Name()
			return &NativeV{func(m *Machine, fr *frame, a []Value) Value { return h.Call(m, fr, name, a[1:]) }}, args
		}
	}
	fn := m.findMethod(recv.t, c.Method)
	if fn == nil {
		panic(unsup("method %s of %s not found", c.Method.Name(), recv.t))
	}
	return fn, args
}

// nativeObj is an engine-implemented object reached through an interface.
type nativeObj interface {
	Call(m *Machine, fr *frame, name string, args []Value) Value
}

type methKey struct {
	t types.Type
	f *types.Func
}

func (m *Machine) findMethod(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth}
	if f, ok := m.methCache[k]; ok {
		return f
	}
	f := m.eng.lookupMethod(t, meth.Pkg(), meth.Name())
	m.methCache[k] = f
	return f
}

func (m *Machine) makeSlice(elem types.Type, n, c int) Slice {
	s := make(Slice, c)
	if c > 0 {
		z := m.zero(elem)
		switch z.(type) {
		case Struct, Array:
			s[0] = z
			for i := 1; i < c; i++ {
				s[i] = m.zero(elem)
			}
		default:
			for i := range s {
				s[i] = z
			}
		}
	}
	return s[:n]
}

func (m *Machine) next(it *rangeIter, in *ssa.Next) Value {
	if it.isS {
		if it.str != nil {
			if it.pos >= len(it.str) {
				return Tuple{false, C(0), C(0)}
			}
			p := it.pos
			// concretise enough: require ASCII or decode by forking
			b := it.str[p]
			if t, ok := b.(*Term); ok {
				if m.branch(m.bank.Bin(OULT, t, m.bank.Const(0x80, 8))) {
					it.pos++
					return Tuple{true, C(p), V(m.bank.ZExt(t, 32))}
				}
				panic(unsup("range over non-ASCII symbolic string"))
			}
			c := byte(b.(C))
			if c < 0x80 {
				it.pos++
				return Tuple{true, C(p), C(c)}
			}
			buf, ok := concBytes(it.str[p:min(p+4, len(it.str))])
			if !ok {
				panic(unsup("range over non-ASCII symbolic string"))
			}
			r, n := utf8.DecodeRune(buf)
			it.pos += n
			return Tuple{true, C(p), C(uint32(r))}
		}
		if it.pos >= len(it.s) {
			return Tuple{false, C(0), C(0)}
		}
		r, n := utf8.DecodeRuneInString(it.s[it.pos:])
		p := it.pos
		it.pos += n
		return Tuple{true, C(p), C(uint32(r))}
	}
	tt := in.Type().(*types.Tuple)
	if it.m == nil {
		return Tuple{false, m.zeroOrNil(tt.At(1).Type()), m.zeroOrNil(tt.At(2).Type())}
	}
	for it.pos < len(it.m.ents) {
		e := it.m.ents[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		return Tuple{true, copyVal(e.k), copyVal(e.v)}
	}
	return Tuple{false, m.zeroOrNil(tt.At(1).Type()), m.zeroOrNil(tt.At(2).Type())}
}
func (m *Machine) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return m.zero(t)
}

func (m *Machine) checkIdx(fr *frame, idx Value, iw uint8, isg bool, n int) Value {
	switch i := idx.(type) {
	case C:
		v := int64(i)
		if isg {
			v = sext(uint64(i), iw)
		}
		if v < 0 || v >= int64(n) {
			panic(m.rtPanicAt(fr, fmt.Sprintf("index out of range [%d] with length %d", v, n)))
		}
		return C(v)
	case *Term:
		t := i
		if isg {
			t = m.bank.SExt(t, 64)
		} else {
			t = m.bank.ZExt(t, 64)
		}
		if !m.branch(m.bank.Bin(OULT, t, m.bank.Const(uint64(n), 64))) {
			panic(m.rtPanicAt(fr, fmt.Sprintf("index out of range [symbolic] with length %d", n)))
		}
		return t
	}
	panic(unsup("index %T", idx))
}

func (m *Machine) indexVal(fr *frame, cells []Value, idx Value, iw uint8, isg bool) Value {
	switch i := m.checkIdx(fr, idx, iw, isg, len(cells)).(type) {
	case C:
		return cells[i]
	case *Term:
		return m.symLoad(&SymPtr{cells, i})
	}
	panic("unreachable")
}

func (m *Machine) symLoad(sp *SymPtr) Value {
	// all scalar of same width?
	var w uint8
	ok := len(sp.cells) <= 1024
	isB := false
	if ok {
		for _, c := range sp.cells {
			switch x := c.(type) {
			case *Term:
				w = x.w
				if x.w == 0 {
					isB = true
				}
			case C:
			case bool:
				isB = true
			default:
				ok = false
			}
		}
	}
	if ok && w == 0 && !isB {
		// all concrete ints, need a width: use minimal of 64 bits? choose 8 when table of bytes
		w = sp.width()
		if w == 0 {
			ok = false
		}
	}
	if !ok {
		i := m.concretize(sp.idx)
		return sp.cells[i]
	}
	if isB {
		w = 0
	}
	var acc *Term
	for k := len(sp.cells) - 1; k >= 0; k-- {
		v := m.T(sp.cells[k], w)
		if acc == nil {
			acc = v
			continue
		}
		acc = m.bank.Ite(m.bank.Eq(sp.idx, m.bank.Const(uint64(k), 64)), v, acc)
	}
	return V(acc)
}

func (sp *SymPtr) width() uint8 { return 0 }

func (m *Machine) symStore(sp *SymPtr, v Value) {
	i := m.concretize(sp.idx)
	m.store(&sp.cells[i], v)
}

func (m *Machine) indexAddr(fr *frame, in *ssa.IndexAddr, ci *cinstr) Value {
	x := fr.get(&ci.ops[0])
	iw, isg, _ := width(in.Index.Type())
	var cells []Value
	switch a := x.(type) {
	case Slice:
		cells = a
	case *Value:
		p := m.deref(fr, a)
		cells = (*p).(Array)
	default:
		panic(unsup("indexaddr on %T", x))
	}
	switch i := m.checkIdx(fr, fr.get(&ci.ops[1]), iw, isg, len(cells)).(type) {
	case C:
		return &cells[i]
	case *Term:
		// symbolic address: only loads of scalars stay symbolic
		et := in.Type().Underlying().(*types.Pointer).Elem()
		if w, _, ok := width(et); ok && len(cells) <= 1024 && onlyLoaded(in) {
			_ = w
			return &SymPtr{cells, i}
		}
		k := m.concretize(i)
		return &cells[k]
	}
	panic("unreachable")
}

func onlyLoaded(in *ssa.IndexAddr) bool {
	for _, r := range *in.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		return false
	}
	return true
}

func (m *Machine) lookup(fr *frame, in *ssa.Lookup, x, k Value) Value {
	switch mp := x.(type) {
	case *MapV:
		e := m.mapFind(mp, k)
		var v Value
		ok := e != nil
		if ok {
			v = copyVal(e.v)
		} else {
			v = m.zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return Tuple{v, ok}
		}
		return v
	case string, *SStr:
		iw, isg, _ := width(in.Index.Type())
		return m.indexVal(fr, strBytes(mp), k, iw, isg)
	}
	panic(unsup("lookup in %T", x))
}

func (m *Machine) slice(fr *frame, in *ssa.Slice, ci *cinstr) Value {
	// operands order: X, Low, High, Max
	x := fr.get(&ci.ops[0])
	ts := [4]ssa.Value{in.X, in.Low, in.High, in.Max}
	geti := func(k int, def int) (int, bool) {
		if k >= len(ci.ops) {
			return def, false
		}
		o := &ci.ops[k]
		if o.kind == okSlot || o.kind == okConst && o.v != nil {
			v := fr.get(o)
			if v == nil {
				return def, false
			}
			return int(m.concTyped(v, ts[k].Type())), true
		}
		return def, false
	}
	var cells []Value
	var str Value
	switch a := x.(type) {
	case Slice:
		cells = a
	case *Value:
		p := m.deref(fr, a)
		cells = (*p).(Array)
	case string:
		str = a
	case *SStr:
		str = a
	default:
		panic(unsup("slice of %T", x))
	}
	k := 1
	lo, hi, mx := 0, -1, -1
	if in.Low != nil {
		lo, _ = geti(k, 0)
	}
	k++
	if in.High != nil {
		hi, _ = geti(k, 0)
		if hi < 0 {
			panic(m.rtPanicAt(fr, fmt.Sprintf("slice bounds out of range [:%d]", hi)))
		}
	}
	k++
	if in.Max != nil {
		mx, _ = geti(k, 0)
		if mx < 0 {
			panic(m.rtPanicAt(fr, fmt.Sprintf("slice bounds out of range [::%d]", mx)))
		}
	}
	if str != nil {
		n := strLen(str)
		if hi < 0 {
			hi = n
		}
		if hi > n {
			panic(m.rtPanicAt(fr, fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n)))
		}
		if lo < 0 || lo > hi {
			panic(m.rtPanicAt(fr, fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi)))
		}
		if s, ok := str.(string); ok {
			return s[lo:hi]
		}
		return mkStr(str.(*SStr).b[lo:hi])
	}
	c := cap(cells)
	if _, isArr := x.(*Value); isArr {
		c = len(cells)
	}
	if hi < 0 {
		hi = len(cells)
	}
	if mx < 0 {
		mx = c
	}
	if mx > c {
		panic(m.rtPanicAt(fr, fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mx, c)))
	}
	if hi > mx {
		panic(m.rtPanicAt(fr, fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, c)))
	}
	if lo < 0 || lo > hi {
		panic(m.rtPanicAt(fr, fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi)))
	}
	if s, ok := x.(Slice); ok && s == nil {
		return Slice(nil)
	}
	return Slice(cells[lo:hi:mx])
}

func (m *Machine) concIdx(v Value) int64 {
	switch x := v.(type) {
	case C:
		return int64(x)
	case *Term:
		return int64(sext(m.concretize(x), x.w))
	}
	panic(unsup("concIdx %T", v))
}

func (m *Machine) concInt(v Value, w uint8, sg bool) int64 {
	switch x := v.(type) {
	case C:
		if sg {
			return sext(uint64(x), w)
		}
		return int64(x)
	case *Term:
		c := m.concretize(x)
		if sg {
			return sext(c, x.w)
		}
		return int64(c)
	}
	panic(unsup("concInt %T", v))
}

// concTyped is concInt at the width and signedness of t.
func (m *Machine) concTyped(v Value, t types.Type) int64 {
	w, sg, ok := width(t)
	if !ok {
		w, sg = 64, true
	}
	return m.concInt(v, w, sg)
}

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (m *Machine) typeAssert(fr *frame, in *ssa.TypeAssert, ai *assertInfo, x Iface) Value {
	ok := false
	if x.t != nil {
		if r, hit := ai.memo[x.t]; hit {
			ok = r
		} else {
			if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
				ok = m.implements(x.t, it)
			} else {
				ok = types.Identical(x.t, in.AssertedType)
			}
			ai.memo[x.t] = ok
		}
	}
	var v Value
	if ok {
		if types.IsInterface(in.AssertedType) {
			v = x
		} else {
			v = copyVal(x.v)
		}
	} else {
		if !in.CommaOk {
			from := "nil"
			if x.t != nil {
				from = x.t.String()
			}
			panic(m.rtPanicAt(fr, fmt.Sprintf("interface conversion: interface is %s, not %s", from, in.AssertedType)))
		}
		v = m.zero(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{v, ok}
	}
	return v
}

func (m *Machine) unop(fr *frame, in *ssa.UnOp, ci *cinstr) Value {
	x := fr.get(&ci.ops[0])
	switch in.Op {
	case token.MUL:
		if sp, ok := x.(*SymPtr); ok {
			if sp2, ok := m.symLoadW(sp, in.Type()); ok {
				return sp2
			}
			return m.symLoad(sp)
		}
		p := m.deref(fr, x)
		return copyVal(*p)
	case token.NOT:
		return m.notV(x)
	case token.SUB:
		switch v := x.(type) {
		case C:
			return C(uint64(-int64(v)) & mask(ci.w))
		case *Term:
			return V(m.bank.Un(ONeg, v))
		case float64:
			return -v
		}
	case token.XOR:
		switch v := x.(type) {
		case C:
			return C(^uint64(v) & mask(ci.w))
		case *Term:
			return V(m.bank.Un(ONot, v))
		}
	case token.ARROW:
		ch := x.(*ChanV)
		v, ok := m.chanRecv(fr, ch, in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, ok}
		}
		return v
	}
	panic(unsup("unop %s %T", in.Op, x))
}

func (m *Machine) symLoadW(sp *SymPtr, t types.Type) (Value, bool) {
	w, _, ok := width(t)
	if !ok || len(sp.cells) == 0 {
		return nil, false
	}
	var acc *Term
	for k := len(sp.cells) - 1; k >= 0; k-- {
		v := m.T(sp.cells[k], w)
		if acc == nil {
			acc = v
			continue
		}
		acc = m.bank.Ite(m.bank.Eq(sp.idx, m.bank.Const(uint64(k), 64)), v, acc)
	}
	return V(acc), true
}

var binOps = map[token.Token]Op{token.ADD: OAdd, token.SUB: OSub, token.MUL: OMul, token.AND: OAnd, token.OR: OOr, token.XOR: OXor}

func (m *Machine) binop(fr *frame, op token.Token, w uint8, sg bool, xt types.Type, x, y Value, yt types.Type) Value {
	switch op {
	case token.EQL:
		return m.eqT(xt, x, y)
	case token.NEQ:
		return m.notV(m.eqT(xt, x, y))
	}
	if xf, ok := x.(float64); ok {
		yf, _ := y.(float64)
		var r float64
		switch op {
		case token.ADD:
			r = xf + yf
		case token.SUB:
			r = xf - yf
		case token.MUL:
			r = xf * yf
		case token.QUO:
			r = xf / yf
		case token.LSS:
			return xf < yf
		case token.LEQ:
			return xf <= yf
		case token.GTR:
			return xf > yf
		case token.GEQ:
			return xf >= yf
		default:
			panic(unsup("float op %s", op))
		}
		if b, ok := xt.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return r
	}
	switch x.(type) {
	case string, *SStr:
		return m.strOp(op, x, y)
	case complex128:
		panic(unsup("complex arithmetic"))
	}
	if op == token.SHL || op == token.SHR {
		return m.shift(fr, op, w, sg, x, y, yt)
	}
	cx, okx := x.(C)
	cy, oky := y.(C)
	mk := mask(w)
	if okx && oky {
		a, b := uint64(cx), uint64(cy)
		switch op {
		case token.ADD:
			return C((a + b) & mk)
		case token.SUB:
			return C((a - b) & mk)
		case token.MUL:
			return C((a * b) & mk)
		case token.QUO, token.REM:
			if b == 0 {
				panic(m.rtPanicAt(fr, "integer divide by zero"))
			}
			if sg {
				if op == token.QUO {
					return C(evalOp(OSDiv, w, w, a, b, 0))
				}
				return C(evalOp(OSRem, w, w, a, b, 0))
			}
			if op == token.QUO {
				return C(a / b)
			}
			return C(a % b)
		case token.AND:
			return C(a & b)
		case token.OR:
			return C(a | b)
		case token.XOR:
			return C(a ^ b)
		case token.AND_NOT:
			return C(a &^ b)
		case token.LSS:
			if sg {
				return sext(a, w) < sext(b, w)
			}
			return a < b
		case token.LEQ:
			if sg {
				return sext(a, w) <= sext(b, w)
			}
			return a <= b
		case token.GTR:
			if sg {
				return sext(a, w) > sext(b, w)
			}
			return a > b
		case token.GEQ:
			if sg {
				return sext(a, w) >= sext(b, w)
			}
			return a >= b
		}
		panic(unsup("binop %s", op))
	}
	// bool ops (& | on bool do not exist in Go)
	tx, ty := m.T(x, w), m.T(y, w)
	if o, ok := binOps[op]; ok {
		return V(m.bank.Bin(o, tx, ty))
	}
	lt, le := OULT, OULE
	if sg {
		lt, le = OSLT, OSLE
	}
	switch op {
	case token.AND_NOT:
		return V(m.bank.Bin(OAnd, tx, m.bank.Un(ONot, ty)))
	case token.LSS:
		return V(m.bank.Bin(lt, tx, ty))
	case token.LEQ:
		return V(m.bank.Bin(le, tx, ty))
	case token.GTR:
		return V(m.bank.Bin(lt, ty, tx))
	case token.GEQ:
		return V(m.bank.Bin(le, ty, tx))
	case token.QUO, token.REM:
		if m.branch(m.bank.Eq(ty, m.bank.Const(0, w))) {
			panic(m.rtPanicAt(fr, "integer divide by zero"))
		}
		var o Op
		switch {
		case sg && op == token.QUO:
			o = OSDiv
		case sg:
			o = OSRem
		case op == token.QUO:
			o = OUDiv
		default:
			o = OURem
		}
		if sg && tx.mx <= mask(w)>>1 && ty.mx <= mask(w)>>1 {
			if o == OSDiv {
				o = OUDiv
			} else {
				o = OURem
			}
		}
		return V(m.bank.Bin(o, tx, ty))
	}
	panic(unsup("binop %s", op))
}

func (m *Machine) eqT(t types.Type, x, y Value) Value {
	// interface vs concrete comparisons are made explicit by SSA (MakeInterface)
	return m.eq(x, y)
}

func (m *Machine) shift(fr *frame, op token.Token, w uint8, sg bool, x, y Value, yt types.Type) Value {
	yw, ysg, _ := width(yt)
	if cy, ok := y.(C); ok {
		n := uint64(cy)
		if ysg && sext(n, yw) < 0 {
			panic(m.rtPanicAt(fr, "negative shift amount"))
		}
		if cx, ok := x.(C); ok {
			if op == token.SHL {
				return C(evalOp(OShl, w, w, uint64(cx), n, 0))
			}
			if sg {
				return C(evalOp(OAShr, w, w, uint64(cx), n, 0))
			}
			return C(evalOp(OLShr, w, w, uint64(cx), n, 0))
		}
		tx := x.(*Term)
		if n >= uint64(w) {
			if op == token.SHR && sg {
				n = uint64(w) - 1
			} else {
				return C(0)
			}
		}
		ct := m.bank.Const(n, w)
		if op == token.SHL {
			return V(m.bank.Bin(OShl, tx, ct))
		}
		if sg {
			return V(m.bank.Bin(OAShr, tx, ct))
		}
		return V(m.bank.Bin(OLShr, tx, ct))
	}
	ty := y.(*Term)
	if ysg {
		if m.branch(m.bank.Bin(OSLT, ty, m.bank.Const(0, yw))) {
			panic(m.rtPanicAt(fr, "negative shift amount"))
		}
	}
	tx := m.T(x, w)
	o := OShl
	if op == token.SHR {
		o = OLShr
		if sg {
			o = OAShr
		}
	}
	// adapt width of the amount
	var amt *Term
	if yw > w {
		big := m.bank.Not(m.bank.Bin(OULT, ty, m.bank.Const(uint64(w), yw)))
		amt = m.bank.Extract(ty, 0, w)
		var over *Term
		if o == OAShr {
			over = m.bank.Bin(OAShr, tx, m.bank.Const(uint64(w)-1, w))
		} else {
			over = m.bank.Const(0, w)
		}
		return V(m.bank.Ite(big, over, m.bank.Bin(o, tx, amt)))
	}
	amt = m.bank.ZExt(ty, w)
	return V(m.bank.Bin(o, tx, amt))
}

func (m *Machine) strOp(op token.Token, x, y Value) Value {
	xs, okx := x.(string)
	ys, oky := y.(string)
	if op == token.ADD {
		if okx && oky {
			return xs + ys
		}
		return mkStr(append(append([]Value{}, strBytes(x)...), strBytes(y)...))
	}
	if okx && oky {
		switch op {
		case token.LSS:
			return xs < ys
		case token.LEQ:
			return xs <= ys
		case token.GTR:
			return xs > ys
		case token.GEQ:
			return xs >= ys
		}
	}
	lt, eq := m.bytesLess(strBytes(x), strBytes(y))
	switch op {
	case token.LSS:
		return V(lt)
	case token.LEQ:
		return V(m.bank.Or(lt, eq))
	case token.GTR:
		return V(m.bank.Not(m.bank.Or(lt, eq)))
	case token.GEQ:
		return V(m.bank.Not(lt))
	}
	panic(unsup("string op %s", op))
}

func (m *Machine) bytesLess(a, b []Value) (lt, eq *Term) {
	n := min(len(a), len(b))
	lt = m.bank.Bool(len(a) < len(b))
	eq = m.bank.Bool(len(a) == len(b))
	for i := n - 1; i >= 0; i-- {
		x, y := m.T(a[i], 8), m.T(b[i], 8)
		e := m.bank.Eq(x, y)
		lt = m.bank.Or(m.bank.Bin(OULT, x, y), m.bank.And(e, lt))
		eq = m.bank.And(e, eq)
	}
	return
}

func (m *Machine) conv(fr *frame, dst, src types.Type, x Value) Value {
	du, su := dst.Underlying(), src.Underlying()
	switch d := du.(type) {
	case *types.Pointer, *types.Signature, *types.Map, *types.Chan:
		return x // incl. unsafe.Pointer -> *T of same representation
	case *types.Slice:
		// string -> []byte / []rune
		switch s := x.(type) {
		case string, *SStr:
			if w, _, _ := width(d.Elem()); w == 8 {
				b := strBytes(s)
				r := make(Slice, len(b))
				copy(r, b)
				return r
			}
			cs, ok := s.(string)
			if !ok {
				panic(unsup("[]rune of symbolic string"))
			}
			rs := []rune(cs)
			r := make(Slice, len(rs))
			for i, c := range rs {
				r[i] = C(uint32(c))
			}
			return r
		case Slice:
			return s
		}
	case *types.Basic:
		if d.Kind() == types.UnsafePointer {
			if c, ok := x.(C); ok {
				if c == 0 {
					return (*Value)(nil)
				}
				panic(unsup("uintptr to pointer"))
			}
			return x
		}
		if d.Info()&types.IsString != 0 {
			switch s := x.(type) {
			case string, *SStr:
				return s
			case Slice:
				if w, _, _ := width(su.(*types.Slice).Elem()); w == 8 {
					return mkStr(s)
				}
				rs := make([]rune, len(s))
				for i, c := range s {
					cc, ok := c.(C)
					if !ok {
						panic(unsup("string of symbolic runes"))
					}
					rs[i] = rune(int32(uint32(cc)))
				}
				return string(rs)
			case C:
				sw, ssg, _ := width(su)
				v := int64(s)
				if ssg {
					v = sext(uint64(s), sw)
				}
				if v < 0 || v > 0x10ffff {
					v = 0xfffd
				}
				return string(rune(v))
			case *Term:
				t := m.bank.ZExt(s, 64)
				if m.branch(m.bank.Bin(OULT, t, m.bank.Const(0x80, 64))) {
					return mkStr([]Value{V(m.bank.Extract(t, 0, 8))})
				}
				panic(unsup("string(rune) symbolic non-ascii"))
			}
		}
		if d.Info()&types.IsInteger != 0 {
			dw, dsg, _ := width(d)
			switch v := x.(type) {
			case float64:
				if dsg {
					return C(uint64(int64(v)) & mask(dw))
				}
				return C(uint64(v) & mask(dw))
			case C:
				sw, ssg, ok := width(su)
				if !ok {
					panic(unsup("convert %s to %s", src, dst))
				}
				if ssg {
					return C(uint64(sext(uint64(v), sw)) & mask(dw))
				}
				return C(uint64(v) & mask(dw))
			case *Term:
				sw, ssg, _ := width(su)
				if dw == sw {
					return v
				}
				if dw < sw {
					return V(m.bank.Extract(v, 0, dw))
				}
				if ssg {
					return V(m.bank.SExt(v, dw))
				}
				return V(m.bank.ZExt(v, dw))
			case *Value:
				// uintptr(unsafe.Pointer(p)): only nil-ness matters
				if v == nil {
					return C(0)
				}
				return C(m.addrOf(v))
			}
		}
		if d.Info()&types.IsFloat != 0 {
			var r float64
			switch v := x.(type) {
			case float64:
				r = v
			case C:
				sw, ssg, _ := width(su)
				if ssg {
					r = float64(sext(uint64(v), sw))
				} else {
					r = float64(uint64(v))
				}
			case *Term:
				sw, ssg, _ := width(su)
				c := m.concretize(v)
				if ssg {
					r = float64(sext(c, sw))
				} else {
					r = float64(c)
				}
			default:
				panic(unsup("conv %T to float", x))
			}
			if d.Kind() == types.Float32 {
				r = float64(float32(r))
			}
			return r
		}
		if d.Info()&types.IsComplex != 0 {
			return x
		}
		if d.Info()&types.IsBoolean != 0 {
			return x
		}
	case *types.Struct, *types.Array, *types.Interface:
		return x
	}
	panic(unsup("convert %s to %s (%T)", src, dst, x))
}

func (m *Machine) addrOf(p *Value) uint64 {
	if a, ok := m.addrs[p]; ok {
		return a
	}
	a := uint64(0x10000 + 64*len(m.addrs))
	m.addrs[p] = a
	return a
}

func (m *Machine) panicText(fr *frame, v Iface) string {
	if v.t == nil {
		return "panic: nil"
	}
	switch x := v.v.(type) {
	case string:
		return x
	}
	if f := m.eng.lookupMethod(v.t, nil, "Error"); f != nil {
		s := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					s = "error value"
				}
			}()
			r := m.callFn(fr, f, []Value{v.v}, nil)
			if x, ok := r.(string); ok {
				s = x
			} else if x, ok := r.(*SStr); ok {
				s = renderBytes(x.b)
			}
		}()
		return s
	}
	return fmt.Sprintf("panic(%s)", v.t)
}

func (m *Machine) builtin(fr *frame, b *ssa.Builtin, args []Value) Value {
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		case string, *SStr:
			add = strBytes(y)
		default:
			panic(unsup("append %T", y))
		}
		if len(add) == 0 {
			return s
		}
		n := len(s)
		if n+len(add) <= cap(s) {
			r := s[:n+len(add)]
			tmp := add
			if overlaps(r[n:], add) {
				tmp = append([]Value{}, add...)
			}
			for i, v := range tmp {
				m.store(&r[n+i], v)
			}
			return r
		}
		// Go growth: capacity matters for aliasing; mirror amortised doubling
		nc := growCap(cap(s), n+len(add), b, m)
		r := make(Slice, n+len(add), nc)
		for i, v := range s {
			r[i] = copyVal(v)
		}
		for i, v := range add {
			r[n+i] = copyVal(v)
		}
		// zero spare capacity
		if nc > len(r) {
			var z Value
			if len(r) > 0 {
				z = m.zeroLike(r[0])
			}
			full := r[:nc]
			for i := len(r); i < nc; i++ {
				full[i] = copyVal(z)
			}
		}
		return r
	case "copy":
		d := args[0].(Slice)
		var s []Value
		switch y := args[1].(type) {
		case Slice:
			s = y
		case string, *SStr:
			s = strBytes(y)
		}
		n := min(len(d), len(s))
		if overlaps(d[:n], s[:n]) {
			s = append([]Value{}, s[:n]...)
		}
		for i := 0; i < n; i++ {
			m.store(&d[i], s[i])
		}
		return C(n)
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return C(len(x))
		case string:
			return C(len(x))
		case *SStr:
			return C(len(x.b))
		case Array:
			return C(len(x))
		case *MapV:
			if x == nil {
				return C(0)
			}
			return C(x.n)
		case *Value:
			return C(len((*x).(Array)))
		case *ChanV:
			return C(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return C(cap(x))
		case Array:
			return C(len(x))
		case *Value:
			return C(len((*x).(Array)))
		case *ChanV:
			return C(x.cap)
		}
	case "delete":
		if mp := args[0].(*MapV); mp != nil {
			m.mapDelete(mp, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range append([]*mapEnt{}, x.ents...) {
					if !e.dead {
						m.mapDelete(x, e.k)
					}
				}
			}
		case Slice:
			for i := range x {
				m.store(&x[i], m.zeroLike(x[i]))
			}
		}
		return nil
	case "print", "println":
		return nil
	case "panic":
		v := args[0].(Iface)
		panic(targetPanic{v: v, msg: m.panicText(fr, v), pos: m.posOf(fr)})
	case "recover":
		// caller frame of the deferred function
		f := fr
		if f != nil && f.caller != nil && f.caller.panicking {
			f.caller.panicking = false
			p := f.caller.panicv
			f.caller.panicv = nil
			m.lastRecovered = p
			return p.v
		}
		return Iface{}
	case "min", "max":
		acc := args[0]
		t := b.Type().(*types.Signature).Params().At(0).Type()
		w, sg, ok := width(t)
		for _, y := range args[1:] {
			if !ok {
				lt := m.binop(fr, token.LSS, 0, false, t, acc, y, t)
				if (lt == true) != (b.Name() == "min") {
					acc = y
				}
				continue
			}
			lt := m.binop(fr, token.LSS, w, sg, t, acc, y, t)
			if lb, isb := lt.(bool); isb {
				if lb != (b.Name() == "min") {
					acc = y
				}
				continue
			}
			c := lt.(*Term)
			if b.Name() == "min" {
				acc = V(m.bank.Ite(c, m.T(acc, w), m.T(y, w)))
			} else {
				acc = V(m.bank.Ite(c, m.T(y, w), m.T(acc, w)))
			}
		}
		return acc
	case "close":
		ch := args[0].(*ChanV)
		if ch.closed {
			panic(m.rtPanicAt(fr, "close of closed channel"))
		}
		if m.trailOn {
			m.trail = append(m.trail, undo{f: func() { ch.closed = false }})
		}
		ch.closed = true
		return nil
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			panic(m.rtPanicAt(fr, fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2])))
		}
		return args[0]
	case "String": // unsafe.String
		n := int(m.concIdx(args[1]))
		if n == 0 {
			return ""
		}
		return mkStr(unsafeSlice(args[0].(*Value), n))
	case "StringData":
		b := strBytes(args[0])
		if len(b) == 0 {
			return (*Value)(nil)
		}
		cp := make([]Value, len(b))
		copy(cp, b)
		return &cp[0]
	case "SliceData":
		s := args[0].(Slice)
		if cap(s) == 0 {
			return (*Value)(nil)
		}
		return &s[:1][0]
	case "Slice":
		p, _ := args[0].(*Value)
		n := int(m.concIdx(args[1]))
		if p == nil {
			return Slice(nil)
		}
		return unsafeSlice(p, n)
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	}
	panic(unsup("builtin %s(%T)", b.Name(), args[0]))
}

func (m *Machine) zeroLike(v Value) Value {
	switch x := v.(type) {
	case C:
		return C(0)
	case *Term:
		if x.w == 0 {
			return false
		}
		return C(0)
	case bool:
		return false
	case float64:
		return float64(0)
	case string, *SStr:
		return ""
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = m.zeroLike(x[i])
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i := range x {
			r[i] = m.zeroLike(x[i])
		}
		return r
	case Slice:
		return Slice(nil)
	case *Value, *NativeV:
		return (*Value)(nil)
	case *MapV:
		return (*MapV)(nil)
	case Iface:
		return Iface{}
	case *ssa.Function, *Closure:
		return (*ssa.Function)(nil)
	case *ChanV:
		return (*ChanV)(nil)
	}
	return nil
}

func overlaps(a, b []Value) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	// same backing array check by address ranges
	a0, a1 := addrOfCell(&a[0]), addrOfCell(&a[len(a)-1])
	b0, b1 := addrOfCell(&b[0]), addrOfCell(&b[len(b)-1])
	return a0 <= b1 && b0 <= a1
}

func growCap(old, need int, b *ssa.Builtin, m *Machine) int {
	// mirrors runtime.nextslicecap + size-class rounding for element size 1 when known
	nc := old
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	es := 8
	if sig, ok := b.Type().(*types.Signature); ok && sig.Params().Len() > 0 {
		if s, ok := sig.Params().At(0).Type().Underlying().(*types.Slice); ok {
			es = int(m.eng.sizes.Sizeof(s.Elem()))
		}
	}
	if es <= 0 {
		return nc
	}
	return roundClass(nc*es) / es
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundClass(n int) int {
	for _, c := range sizeClasses {
		if n <= c {
			return c
		}
	}
	return (n + 8191) / 8192 * 8192
}

func (m *Machine) chanSend(fr *frame, ch *ChanV, v Value) {
	if ch == nil {
		panic(pathAbort{"send on nil channel blocks"})
	}
	if ch.closed {
		panic(m.rtPanicAt(fr, "send on closed channel"))
	}
	old := ch.buf
	if m.trailOn {
		m.trail = append(m.trail, undo{f: func() { ch.buf = old }})
	}
	ch.buf = append(append([]Value{}, ch.buf...), copyVal(v))
}

func (m *Machine) chanRecv(fr *frame, ch *ChanV, et types.Type) (Value, bool) {
	for len(ch.buf) == 0 {
		if len(m.pending) > 0 {
			m.runPending(fr)
			continue
		}
		if ch.closed {
			return m.zero(et), false
		}
		panic(pathAbort{"deadlock: receive blocks"})
	}
	old := ch.buf
	if m.trailOn {
		m.trail = append(m.trail, undo{f: func() { ch.buf = old }})
	}
	v := ch.buf[0]
	ch.buf = append([]Value{}, ch.buf[1:]...)
	return v, true
}

func (m *Machine) spawn(fr *frame, fn Value, args []Value) {
	m.pending = append(m.pending, deferred{fn, args})
}

func (m *Machine) runPending(fr *frame) {
	d := m.pending[0]
	m.pending = m.pending[1:]
	m.call(fr, d.fn, d.args)
}

func trimRepo(s string) string {
	if i := strings.Index(s, "/repo/"); i >= 0 {
		return s[i+6:]
	}
	if i := strings.LastIndex(s, "/pkg/mod/"); i >= 0 {
		return s[i+9:]
	}
	if i := strings.LastIndex(s, "/src/"); i >= 0 {
		return s[i+5:]
	}
	return s
}

var _ = math.MaxInt64
