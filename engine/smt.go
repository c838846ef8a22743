package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Verdict int

const (
	Unsat Verdict = iota
	Sat
	Unknown
)

// Solver drives one z3 process. Assertions of the current path are pushed
// in one scope; queries use a nested scope.
type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	bank     *TermBank
	stamp    uint32 // emission stamp for current path scope
	vars     []*Term
	inPath   bool
	Queries  int
	NSat     int
	NUnsat   int
	NUnk     int
	Time     time.Duration
	MaxQ     time.Duration
	timeout  int // ms
	errs     []string
	uses     int
	log      io.Writer
	buf      strings.Builder
	lostPath bool
}

func NewSolver(bank *TermBank, timeoutMs int) *Solver {
	s := &Solver{bank: bank, timeout: timeoutMs}
	s.start()
	return s
}

var solverBin = "z3-new"

func (s *Solver) start() {
	s.buf.Reset()
	s.cmd = exec.Command(solverBin, "-in")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic("cannot start solver: " + err.Error())
	}
	s.send(fmt.Sprintf("(set-option :timeout %d)\n(set-option :produce-models true)\n(set-logic QF_BV)\n", s.timeout))
	s.inPath = false
	s.uses = 0
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.buf.WriteString(x)
	if s.buf.Len() > 1<<15 {
		s.flush()
	}
}

func (s *Solver) flush() {
	io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
}

func (s *Solver) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) BeginPath() {
	s.uses++
	if s.uses > 400 {
		s.restart()
	}
	if s.inPath {
		s.send("(pop 1)\n")
	}
	s.send("(push 1)\n")
	s.inPath = true
	s.stamp = s.bank.newStamp()
	s.vars = s.vars[:0]
	s.lostPath = false
}

func (s *Solver) Assert(t *Term) {
	var sb strings.Builder
	emitTerm(&sb, t, s.stamp, &s.vars)
	fmt.Fprintf(&sb, "(assert %s)\n", refStr(t))
	s.send(sb.String())
}

// readSexp reads one balanced s-expression or atom.
func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	inStr := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		if inStr {
			sb.WriteByte(b)
			if b == '"' {
				inStr = false
				if depth == 0 {
					return sb.String(), nil
				}
			}
			continue
		}
		switch {
		case b == '"':
			inStr = true
			started = true
			sb.WriteByte(b)
		case b == '(':
			depth++
			started = true
			sb.WriteByte(b)
		case b == ')':
			depth--
			sb.WriteByte(b)
			if depth == 0 {
				return sb.String(), nil
			}
		case b == ' ' || b == '\n' || b == '\t' || b == '\r':
			if started && depth == 0 {
				return sb.String(), nil
			}
			if started {
				sb.WriteByte(b)
			}
		default:
			started = true
			sb.WriteByte(b)
		}
	}
}

// Check decides path /\ extra. With wantModel a model of all declared variables is returned.
func (s *Solver) Check(extra []*Term, wantModel bool) (Verdict, Model) {
	t0 := time.Now()
	s.Queries++
	var sb strings.Builder
	for _, t := range extra {
		emitTerm(&sb, t, s.stamp, &s.vars)
	}
	if len(extra) > 0 {
		sb.WriteString("(push 1)\n")
		for _, t := range extra {
			fmt.Fprintf(&sb, "(assert %s)\n", refStr(t))
		}
	}
	sb.WriteString("(check-sat)\n")
	s.send(sb.String())
	s.flush()
	v := Unknown
	var ans string
	for {
		a, err := s.readSexp()
		if err != nil {
			s.errs = append(s.errs, "solver died: "+err.Error())
			s.restartInPath()
			s.NUnk++
			return Unknown, nil
		}
		ans = a
		if strings.HasPrefix(a, "(error") {
			s.errs = append(s.errs, a)
			continue
		}
		break
	}
	bad := len(s.errs) > 0
	switch ans {
	case "sat":
		v = Sat
	case "unsat":
		v = Unsat
	}
	var m Model
	if v == Sat && wantModel {
		m = Model{}
		if len(s.vars) > 0 {
			const chunk = 500
			for i := 0; i < len(s.vars); i += chunk {
				e := i + chunk
				if e > len(s.vars) {
					e = len(s.vars)
				}
				var q strings.Builder
				q.WriteString("(get-value (")
				for _, x := range s.vars[i:e] {
					fmt.Fprintf(&q, "t%d ", x.id)
				}
				q.WriteString("))\n")
				s.send(q.String())
				s.flush()
				r, err := s.readSexp()
				if err != nil || strings.HasPrefix(r, "(error") {
					s.errs = append(s.errs, "get-value: "+r)
					v = Unknown
					break
				}
				parseValues(r, s.vars[i:e], m)
			}
		}
	}
	if len(extra) > 0 {
		s.send("(pop 1)\n")
	}
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxQ {
		s.MaxQ = d
	}
	if bad && v == Unsat {
		v = Unknown // an error line may mean a dropped assertion
	}
	switch v {
	case Sat:
		s.NSat++
	case Unsat:
		s.NUnsat++
	default:
		s.NUnk++
	}
	return v, m
}

func (s *Solver) restartInPath() {
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.start()
	s.send("(push 1)\n")
	s.inPath = true
	s.stamp = s.bank.newStamp()
	s.vars = s.vars[:0]
	s.lostPath = true // the caller's path is inconclusive from here on
}

func parseValues(r string, vars []*Term, m Model) {
	// ((t1 #x00) (t2 true) ...)
	i := 0
	n := len(r)
	idx := 0
	for i < n && idx < len(vars) {
		// find "(t"
		j := strings.Index(r[i:], "(t")
		if j < 0 {
			return
		}
		i += j + 1
		sp := strings.IndexByte(r[i:], ' ')
		i += sp + 1
		e := i
		if r[i] == '(' { // (_ bvN w)
			e = i + strings.IndexByte(r[i:], ')')
			f := strings.Fields(r[i+1 : e])
			v, _ := strconv.ParseUint(f[1][2:], 10, 64)
			m[vars[idx].name] = v
			e++
		} else {
			e = i + strings.IndexByte(r[i:], ')')
			tok := strings.TrimSpace(r[i:e])
			switch {
			case tok == "true":
				m[vars[idx].name] = 1
			case tok == "false":
				m[vars[idx].name] = 0
			case strings.HasPrefix(tok, "#x"):
				v, _ := strconv.ParseUint(tok[2:], 16, 64)
				m[vars[idx].name] = v
			case strings.HasPrefix(tok, "#b"):
				v, _ := strconv.ParseUint(tok[2:], 2, 64)
				m[vars[idx].name] = v
			}
		}
		i = e
		idx++
	}
}
