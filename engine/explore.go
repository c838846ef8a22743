package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type decKind uint8

const (
	dBranch decKind = iota
	dConc
	dChoose
)

type decision struct {
	kind  decKind
	taken bool
	val   uint64
	h     uint64 // structural hash of the condition, detects replay divergence
}

type workItem struct {
	h      *Harness
	prefix []decision
	model  Model
}

type Harness struct {
	name    string
	fn      *ssa.Function
	mu      sync.Mutex
	queue   []*workItem
	running int
	busy    time.Duration
	started int
	// results
	paths, infeasible, aborted, unsupported, inconcl, diverged, assumeCut int
	reasons                                                               map[string]int
	asserts                                                               map[string]*assertStat
	reach                                                                 map[string]int
	expect                                                                map[string]bool
	viols                                                                 []*Violation
	samples                                                               []*Case
	decs, steps                                                           int64
	boundCut, maxDecs                                                     int
	dropped                                                               int
	bounds                                                                map[string]int64
	assumptions                                                           map[string]bool
}

type assertStat struct{ trivial, proved, violated, unknown int }

type inputRec struct {
	Name  string `json:"n"`
	Kind  string `json:"k"`
	Val   string `json:"v"` // hex, big endian for ints
	cells []Value
	term  *Term
	w     uint8
	conc  uint64
}

type obsRec struct {
	label string
	v     []Value // bytes or single scalar
	w     uint8
	s     string
}

type Case struct {
	Harness string      `json:"harness"`
	Inputs  []*inputRec `json:"inputs"`
	Rands   []string    `json:"rands"`
	ECKeys  []string    `json:"eckeys,omitempty"`
	Obs     []string    `json:"obs,omitempty"`
	Label   string      `json:"label,omitempty"`
	Tier    string      `json:"tier"`
}

type Violation struct {
	Harness string
	Label   string
	Msg     string
	Stack   []string
	Case    *Case
	Panic   bool
	Replay  string
	Status  string
}

type cryptoApp struct {
	kind string
	in   [][]Value
	out  []Value
	real func(in [][]byte) []byte
}

type Path struct {
	item     *workItem
	h        *Harness
	prefix   []decision
	pos      int
	decs     []decision
	model    Model
	pc       []*Term
	traced   bool // a divergence was printed
	pcset    map[*Term]bool
	stamp    uint32
	inputs   []*inputRec
	rands    [][]Value
	obs      []obsRec
	funcs    map[*ssa.Function]bool
	apps     map[string][]*cryptoApp
	allApps  []*cryptoApp
	fresh    map[string]int
	signs    []*signRec
	seals    []*sealRec
	inconcl  bool
	tainted  string
	eckeys   []string
	counters map[string]int
	opts     map[string]int64
	knownEnc map[string][][]byte
}

// Machine is one worker.
type Machine struct {
	eng              *Engine
	bank             *TermBank
	solver           *Solver
	cfuncs           map[*ssa.Function]*cfunc
	globals          map[*ssa.Global]*Value
	inited           map[*ssa.Package]bool
	trail            []undo
	trailOn          bool
	path             *Path
	cur              *frame // current frame, when debugging forks
	initDepth, depth int
	steps, maxSteps  int
	inErrf           int
	methCache        map[methKey]*ssa.Function
	pending          []deferred
	lastRecovered    *targetPanic
	addrs            map[*Value]uint64
	notes            map[string]int
	local            map[string]any
	pendingNeg       *Term
}

func (e *Engine) NewMachine() *Machine {
	m := &Machine{eng: e, cfuncs: map[*ssa.Function]*cfunc{}, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		methCache: map[methKey]*ssa.Function{}, addrs: map[*Value]uint64{}, notes: map[string]int{}, maxSteps: e.maxSteps, local: map[string]any{}}
	m.bank = NewBank()
	m.solver = NewSolver(m.bank, e.solverTimeoutMs)
	return m
}

func (m *Machine) note(s string) { m.notes[s]++ }

func (m *Machine) resetBank() {
	old := m.solver
	m.bank = NewBank()
	m.solver = NewSolver(m.bank, m.eng.solverTimeoutMs)
	m.solver.Queries, m.solver.NSat, m.solver.NUnsat, m.solver.NUnk = old.Queries, old.NSat, old.NUnsat, old.NUnk
	m.solver.Time, m.solver.MaxQ, m.solver.errs = old.Time, old.MaxQ, old.errs
	old.Close()
}

// ---------- path primitives
func (p *Path) name(base string) string {
	n := p.fresh[base]
	p.fresh[base] = n + 1
	return fmt.Sprintf("%s#%d", base, n)
}

func (m *Machine) freshVar(base string, w uint8, def uint64) *Term {
	p := m.path
	if p == nil {
		panic(unsup("symbolic value outside a path"))
	}
	n := p.name(base)
	t := m.bank.Var(n, w)
	if _, ok := p.model[n]; !ok {
		p.model[n] = def & mask(w)
		if w == 0 {
			p.model[n] = def & 1
		}
	}
	return t
}

func (m *Machine) eval(t *Term) uint64 {
	return evalTerm(t, m.path.model, m.path.stamp)
}

func (m *Machine) evalV(v Value) uint64 {
	switch x := v.(type) {
	case C:
		return uint64(x)
	case bool:
		return b2u(x)
	case *Term:
		return m.eval(x)
	}
	panic(unsup("evalV %T", v))
}
func (m *Machine) evalBytes(b []Value) []byte {
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(m.evalV(x))
	}
	return r
}

func (m *Machine) setModel(mod Model) {
	p := m.path
	for k, v := range p.model {
		if _, ok := mod[k]; !ok {
			mod[k] = v
		}
	}
	p.model = mod
	p.stamp = m.bank.newStamp()
}

func (p *Path) addKnown(c *Term) {
	if c.op == OBAnd {
		p.addKnown(c.a)
		p.addKnown(c.b)
	}
	if c.op == OBNot && c.a.op == OBOr {
		p.addKnownNot(c.a.a)
		p.addKnownNot(c.a.b)
	}
	p.pcset[c] = true
}
func (p *Path) addKnownNot(c *Term) {
	if c.op == OBNot {
		p.addKnown(c.a)
		return
	}
	p.pcset[c] = false
}

func (p *Path) known(c *Term) (bool, bool) {
	neg := false
	if c.op == OBNot {
		c, neg = c.a, true
	}
	if v, ok := p.pcset[c]; ok {
		return v != neg, true
	}
	if c.op == OBAnd {
		l, lk := p.known(c.a)
		r, rk := p.known(c.b)
		if lk && !l || rk && !r {
			return false != neg, true
		}
		if lk && rk && l && r {
			return true != neg, true
		}
	}
	return false, false
}

func (m *Machine) assumeT(c *Term) {
	if c.isC() {
		if c.k == 0 {
			panic(pathAbort{"infeasible"})
		}
		return
	}
	p := m.path
	if c.op == OBNot {
		p.pcset[c.a] = false
		if c.a.op == OBOr {
			p.addKnown(c)
		}
	} else {
		p.addKnown(c)
	}
	p.pc = append(p.pc, c)
	m.solver.Assert(c)
}

func (m *Machine) takePrefix(k decKind, h uint64) (decision, bool) {
	p := m.path
	if p.pos >= len(p.prefix) {
		return decision{}, false
	}
	d := p.prefix[p.pos]
	p.pos++
	if d.kind != k || d.h != h {
		panic(pathAbort{"diverged: replayed decision differs"})
	}
	p.decs = append(p.decs, d)
	return d, true
}

func (m *Machine) push(d decision, mod Model) {
	p := m.path
	pre := make([]decision, len(p.decs)+1)
	copy(pre, p.decs)
	pre[len(p.decs)] = d
	if mod == nil {
		mod = make(Model, len(p.model))
	}
	for k, v := range p.model {
		if _, ok := mod[k]; !ok {
			mod[k] = v
		}
	}
	m.eng.pushItem(&workItem{h: p.h, prefix: pre, model: mod})
}

func (m *Machine) branch(c *Term) bool {
	if c.isC() {
		return c.k == 1
	}
	p := m.path
	if p == nil {
		panic(unsup("symbolic branch outside a path"))
	}
	if v, ok := p.known(c); ok {
		return v
	}
	if d, ok := m.takePrefix(dBranch, c.h); ok {
		if d.taken {
			m.assumeT(c)
		} else {
			m.assumeT(m.bank.Not(c))
		}
		return d.taken
	}
	m.checkDeadline()
	if debugQueries {
		m.fork()
	}
	side := m.eval(c) == 1
	mine, other := c, m.bank.Not(c)
	if !side {
		mine, other = other, mine
	}
	v, mod := m.solver.Check([]*Term{other}, true)
	switch v {
	case Sat:
		m.fork()
		m.push(decision{dBranch, !side, 0, c.h}, mod)
	case Unknown:
		p.inconcl = true
		m.eng.noteUnknown(p.h, "branch undecided")
		m.checkSolver()
	}
	p.decs = append(p.decs, decision{dBranch, side, 0, c.h})
	m.assumeT(mine)
	return side
}

func (m *Machine) checkSolver() {
	if m.solver.lostPath {
		panic(pathAbort{"solver restarted"})
	}
}

func (m *Machine) branchV(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return m.branch(x)
	}
	panic(unsup("branchV %T", v))
}

// feasible decides whether c can be true on this path without forking.
func (m *Machine) feasible(c *Term) Verdict {
	if c.isC() {
		if c.k == 1 {
			return Sat
		}
		return Unsat
	}
	if m.eval(c) == 1 {
		return Sat
	}
	v, _ := m.solver.Check([]*Term{c}, false)
	return v
}

var traced sync.Map

// trace prints the engine's stack once per reason.
func (m *Machine) trace(why string) {
	if !m.eng.verbose {
		return
	}
	if _, old := traced.LoadOrStore(why, true); old {
		return
	}
	l := strings.Split(string(debug.Stack()), "\n")
	var keep []string
	for _, x := range l {
		if strings.Contains(x, "/verif/engine/") && !strings.Contains(x, "interp.go") && len(keep) < 12 {
			keep = append(keep, strings.TrimSpace(x))
		}
	}
	fmt.Println(why, "::", strings.Join(keep, " < "))
}

func (m *Machine) concretize(t *Term) uint64 {
	if t.isC() {
		return t.k
	}
	p := m.path
	if p == nil {
		panic(unsup("concretize outside a path"))
	}
	if t.w == 0 {
		return b2u(m.branch(t))
	}
	for {
		v := m.eval(t)
		eq := m.bank.Eq(t, m.bank.Const(v, t.w))
		if eq.isC() {
			return v
		}
		if k, ok := p.known(eq); ok && k {
			return v
		}
		if d, ok := m.takePrefix(dConc, t.h); ok {
			eq := m.bank.Eq(t, m.bank.Const(d.val, t.w))
			if d.taken {
				m.assumeT(eq)
				return d.val
			}
			m.assumeT(m.bank.Not(eq))
			continue
		}
		m.checkDeadline()
		r, mod := m.solver.Check([]*Term{m.bank.Not(eq)}, true)
		switch r {
		case Sat:
			m.fork()
			m.push(decision{dConc, false, v, t.h}, mod)
		case Unknown:
			p.inconcl = true
			m.eng.noteUnknown(p.h, "value undecided")
			m.checkSolver()
		}
		p.decs = append(p.decs, decision{dConc, true, v, t.h})
		m.assumeT(eq)
		return v
	}
}

// choose explores every value 0..n-1.
func (m *Machine) choose(n int) int {
	p := m.path
	if n <= 1 {
		return 0
	}
	if d, ok := m.takePrefix(dChoose, uint64(n)); ok {
		return int(d.val)
	}
	m.checkDeadline()
	for i := n - 1; i >= 1; i-- {
		m.push(decision{dChoose, true, uint64(i), uint64(n)}, nil)
	}
	p.decs = append(p.decs, decision{dChoose, true, 0, uint64(n)})
	return 0
}

func (m *Machine) assumeV(v Value) {
	c := m.BT(v)
	if c.isC() {
		if c.k == 0 {
			panic(pathAbort{"assume"})
		}
		return
	}
	p := m.path
	if k, ok := p.known(c); ok {
		if !k {
			panic(pathAbort{"assume"})
		}
		return
	}
	if m.eval(c) != 1 {
		v, mod := m.solver.Check([]*Term{c}, true)
		if v == Unsat {
			panic(pathAbort{"assume"})
		}
		if v == Unknown {
			p.inconcl = true
			panic(pathAbort{"unknown: assumption undecided"})
		}
		m.setModel(mod)
	}
	m.assumeT(c)
}

func (m *Machine) checkDeadline() {
	if k := m.path.opts["max-decisions"]; k > 0 && int64(len(m.path.decs)) >= k {
		panic(pathAbort{"bound: decisions"})
	}
	if time.Now().After(m.eng.deadline) {
		panic(pathAbort{"time budget"})
	}
}

func (m *Machine) inPrefix() bool { return m.path.pos < len(m.path.prefix) }

func (m *Machine) assertV(fr *frame, v Value, label string) {
	p := m.path
	c := m.BT(v)
	st := p.h.stat(label)
	if c.isC() {
		if c.k == 1 {
			p.h.mu.Lock()
			st.trivial++
			p.h.mu.Unlock()
			return
		}
		if !m.inPrefix() {
			m.violation(fr, label, "assertion is false on every input of this path", nil, false)
		}
		panic(pathAbort{"assertion failed"})
	}
	if k, ok := p.known(c); ok && k {
		p.h.mu.Lock()
		st.trivial++
		p.h.mu.Unlock()
		return
	}
	if !m.inPrefix() {
		if m.eval(c) != 1 {
			m.pendingNeg = m.bank.Not(c)
			m.violation(fr, label, "assertion can fail", nil, false)
			m.pendingNeg = nil
			v, mod := m.solver.Check([]*Term{c}, true)
			if v != Sat {
				panic(pathAbort{"assertion failed"})
			}
			m.setModel(mod)
		} else {
			v, mod := m.solver.Check([]*Term{m.bank.Not(c)}, true)
			p.h.mu.Lock()
			switch v {
			case Unsat:
				st.proved++
			case Unknown:
				st.unknown++
			}
			p.h.mu.Unlock()
			if v == Sat {
				m.pendingNeg = m.bank.Not(c)
				m.violation(fr, label, "assertion can fail", mod, false)
				m.pendingNeg = nil
			} else if v == Unknown {
				p.inconcl = true
				m.eng.noteUnknown(p.h, "assertion undecided: "+label)
				m.checkSolver()
			}
		}
	} else if m.eval(c) != 1 {
		// a prefix replay whose model violates an already-checked assertion
		v, mod := m.solver.Check([]*Term{c}, true)
		if v != Sat {
			panic(pathAbort{"assertion failed"})
		}
		m.setModel(mod)
	}
	m.assumeT(c)
}

func (h *Harness) stat(label string) *assertStat {
	h.mu.Lock()
	defer h.mu.Unlock()
	s := h.asserts[label]
	if s == nil {
		s = &assertStat{}
		h.asserts[label] = s
	}
	return s
}

func (m *Machine) violation(fr *frame, label, msg string, mod Model, isPanic bool) {
	p := m.path
	h := p.h
	h.mu.Lock()
	st := h.asserts[label]
	if st == nil {
		st = &assertStat{}
		h.asserts[label] = st
	}
	st.violated++
	n := 0
	for _, v := range h.viols {
		if v.Label == label {
			n++
		}
	}
	h.mu.Unlock()
	if n >= 4 {
		return
	}
	save, saveStamp := p.model, p.stamp
	if mod != nil {
		for k, v := range p.model {
			if _, ok := mod[k]; !ok {
				mod[k] = v
			}
		}
		p.model = mod
		p.stamp = m.bank.newStamp()
	}
	var neg []*Term
	// keep the failing assertion's negation through concretisation
	if m.pendingNeg != nil {
		neg = []*Term{m.pendingNeg}
	}
	cs, ok := m.finalize(neg)
	v := &Violation{Harness: h.name, Label: label, Msg: msg, Stack: m.stack(fr), Case: cs, Panic: isPanic}
	if !ok {
		v.Msg += " (crypto outputs could not be made concrete)"
	}
	if cs != nil {
		cs.Label = label
	}
	_ = saveStamp
	p.model = save
	p.stamp = m.bank.newStamp()
	h.mu.Lock()
	h.viols = append(h.viols, v)
	h.mu.Unlock()
}

// finalize replaces the ideal crypto outputs in the current model by the real ones and
// extracts the concrete case.
func (m *Machine) finalize(extra []*Term) (*Case, bool) {
	p := m.path
	ok := true
	pins := append([]*Term{}, extra...)
	for round := 0; round < 3; round++ {
		changed := false
		for _, a := range p.allApps {
			ins := make([][]byte, len(a.in))
			for i, x := range a.in {
				ins[i] = m.evalBytes(x)
			}
			want := a.real(ins)
			got := m.evalBytes(a.out)
			if string(want) == string(got) {
				continue
			}
			changed = true
			for i, x := range a.in {
				for j, c := range x {
					if t, is := c.(*Term); is {
						pins = append(pins, m.bank.Eq(t, m.bank.Const(uint64(ins[i][j]), 8)))
					}
				}
			}
			for j, c := range a.out {
				if t, is := c.(*Term); is {
					pins = append(pins, m.bank.Eq(t, m.bank.Const(uint64(want[j]), 8)))
				}
			}
			v, mod := m.solver.Check(pins, true)
			if v != Sat {
				ok = false
				break
			}
			for k, x := range p.model {
				if _, has := mod[k]; !has {
					mod[k] = x
				}
			}
			p.model = mod
			p.stamp = m.bank.newStamp()
		}
		if !changed || !ok {
			break
		}
	}
	cs := &Case{Harness: p.h.name, Tier: m.eng.tier}
	for _, in := range p.inputs {
		r := &inputRec{Name: in.Name, Kind: in.Kind}
		if in.cells != nil || in.Kind == "bytes" {
			r.Val = hex.EncodeToString(m.evalBytes(in.cells))
		} else {
			r.Val = fmt.Sprintf("%x", in.conc)
		}
		if in.Kind == "int" && in.cells == nil && in.term != nil {
			r.Val = fmt.Sprintf("%x", m.eval(in.term))
		}
		cs.Inputs = append(cs.Inputs, r)
	}
	for _, r := range p.rands {
		cs.Rands = append(cs.Rands, hex.EncodeToString(m.evalBytes(r)))
	}
	cs.ECKeys = p.eckeys
	for _, o := range p.obs {
		cs.Obs = append(cs.Obs, o.label+"="+m.obsText(o))
	}
	return cs, ok
}

func (m *Machine) obsText(o obsRec) string {
	if o.v == nil {
		return o.s
	}
	if o.w == 255 {
		return hex.EncodeToString(m.evalBytes(o.v))
	}
	x := m.evalV(o.v[0])
	if o.w == 0 {
		return fmt.Sprint(x == 1)
	}
	return fmt.Sprint(x)
}

// ---------- running one item
func (m *Machine) runItem(it *workItem) {
	h := it.h
	p := &Path{item: it, h: h, prefix: it.prefix, model: it.model, pcset: map[*Term]bool{}, funcs: map[*ssa.Function]bool{},
		apps: map[string][]*cryptoApp{}, fresh: map[string]int{}, counters: map[string]int{}, opts: map[string]int64{}}
	if p.model == nil {
		p.model = Model{}
	}
	if m.bank.next > 4_000_000 {
		m.resetBank()
	}
	m.solver.BeginPath()
	m.path = p
	p.stamp = m.bank.newStamp()
	m.steps, m.depth = 0, 0
	m.pending = nil
	m.trailOn = true
	m.addrs = map[*Value]uint64{}
	status := ""
	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
			case targetPanic:
				status = "panic"
				if !m.inPrefix() {
					m.violation(&frame{m: m}, "uncaught panic", x.msg+" at "+x.pos, nil, true)
				}
			case pathAbort:
				status = x.reason
			case unsupported:
				status = "unsupported: " + x.msg + " @ " + x.stack
			case errSymbolic:
				status = "unsupported: a symbolic value reaches a native model"
				m.trace(status)
			case runtime.Error:
				status = "engine: " + x.Error()
				m.trace(status)
			default:
				status = fmt.Sprintf("engine: %v", r)
				m.trace(status)
			}
		}()
		m.callFn(nil, h.fn, nil, nil)
	}()
	if status == "" && p.pos < len(p.prefix) {
		status = "diverged: path ended inside its prefix"
	}
	var sample *Case
	if status == "" && !p.inconcl && p.tainted == "" && h.wantSample() {
		cs, ok := m.finalize(nil)
		if ok {
			sample = cs
		}
	}
	m.undoTrail()
	m.trailOn = false
	m.path = nil
	h.mu.Lock()
	h.steps += int64(m.steps)
	h.decs += int64(len(p.decs) - len(p.prefix))
	if len(p.decs) > h.maxDecs {
		h.maxDecs = len(p.decs)
	}
	for f := range p.funcs {
		m.eng.addFunc(f)
	}
	switch {
	case status == "":
		h.paths++
		if p.inconcl {
			h.inconcl++
		}
		if sample != nil {
			h.samples = append(h.samples, sample)
		}
	case status == "assume" || status == "infeasible":
		h.assumeCut++
	case status == "assertion failed" || status == "panic":
		h.paths++
	case strings.HasPrefix(status, "bound"):
		h.boundCut++
		h.bounds["decisions per path"] = p.opts["max-decisions"]
	case strings.HasPrefix(status, "unsupported"):
		h.unsupported++
		h.reasons[status]++
	case strings.HasPrefix(status, "diverged"):
		h.diverged++
		h.reasons[status]++
	default:
		h.aborted++
		h.reasons[status]++
	}
	h.mu.Unlock()
}

func (h *Harness) wantSample() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	n := h.paths
	if n < 6 {
		return true
	}
	if len(h.samples) > 24 {
		return false
	}
	return n&(n-1) == 0 || n%97 == 0
}

// ---------- scheduling
func (e *Engine) pushItem(it *workItem) {
	e.qmu.Lock()
	if len(it.h.queue) < 200000 {
		it.h.queue = append(it.h.queue, it)
	} else {
		it.h.dropped++
	}
	e.qmu.Unlock()
	e.qcond.Signal()
}

func (e *Engine) popItem() *workItem {
	e.qmu.Lock()
	defer e.qmu.Unlock()
	for {
		var best *Harness
		for _, h := range e.harnesses {
			if len(h.queue) == 0 {
				continue
			}
			if best == nil || h.cost() < best.cost() {
				best = h
			}
		}
		if best != nil && time.Now().Before(e.deadline) {
			best.started++
			n := len(best.queue)
			var it *workItem
			if best.started%3 == 0 { // take an old (shallow) one now and then
				k := 0
				it = best.queue[k]
				copy(best.queue[k:], best.queue[k+1:])
			} else {
				it = best.queue[n-1]
			}
			best.queue[n-1] = nil
			best.queue = best.queue[:n-1]
			best.running++
			return it
		}
		if best != nil { // deadline passed
			return nil
		}
		run := 0
		for _, h := range e.harnesses {
			run += h.running
		}
		if run == 0 {
			return nil
		}
		e.qcond.Wait()
	}
}

func (h *Harness) cost() time.Duration { return h.busy + time.Duration(h.running)*time.Second }

func (e *Engine) explore() {
	e.qcond = sync.NewCond(&e.qmu)
	for _, h := range e.harnesses {
		h.queue = append(h.queue, &workItem{h: h, model: Model{}})
	}
	var wg sync.WaitGroup
	for w := 0; w < e.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := e.NewMachine()
			for {
				it := e.popItem()
				if it == nil {
					break
				}
				t0 := time.Now()
				m.runItem(it)
				d := time.Since(t0)
				e.qmu.Lock()
				it.h.running--
				it.h.busy += d
				e.qmu.Unlock()
				e.qcond.Broadcast()
			}
			e.qcond.Broadcast()
			e.qmu.Lock()
			e.queries += m.solver.Queries
			e.nsat += m.solver.NSat
			e.nunsat += m.solver.NUnsat
			e.nunk += m.solver.NUnk
			e.solverTime += m.solver.Time
			if m.solver.MaxQ > e.maxQ {
				e.maxQ = m.solver.MaxQ
			}
			e.solverErrs = append(e.solverErrs, m.solver.errs...)
			for k, v := range m.notes {
				e.notes[k] += v
			}
			e.qmu.Unlock()
			m.solver.Close()
		}()
	}
	// periodic wakeup so that a passed deadline is noticed
	done := make(chan bool)
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
				e.qcond.Broadcast()
			}
		}
	}()
	wg.Wait()
	close(done)
}

func (e *Engine) noteUnknown(h *Harness, s string) {
	h.mu.Lock()
	h.reasons["unknown: "+s]++
	h.mu.Unlock()
}

func (e *Engine) addFunc(f *ssa.Function) {
	e.fmu.Lock()
	e.funcs[f] = true
	e.fmu.Unlock()
}

func (e *Engine) funcNames() []string {
	var r []string
	for f := range e.funcs {
		if strings.Contains(f.String(), "/vxh/") {
			continue
		}
		r = append(r, strings.ReplaceAll(f.String(), e.modPath+"/", ""))
	}
	sort.Strings(r)
	return r
}

var _ types.Type
