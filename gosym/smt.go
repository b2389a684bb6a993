package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Result of a query.
type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// SolverStats are shared by all workers.
type SolverStats struct {
	queries, sat, unsat, unknown, nanos, restarts, crossOK, crossBad, crossUnk int64
}

// Solver is one incremental SMT solver process.
type Solver struct {
	ctx     *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.Closer
	out     *bufio.Reader
	defined map[*Term]string
	stack   []*Term
	stats   *SolverStats
	timeout int // ms
	prog    string
}

const prelude = `(set-option :print-success false)
(set-option :global-declarations true)
(define-fun hexdig ((x (_ BitVec 4))) (_ BitVec 8) (let ((y (concat #x0 x))) (ite (bvult y #x0a) (bvadd y #x30) (bvadd y #x57))))
(define-fun b64dig ((x (_ BitVec 6))) (_ BitVec 8) (let ((y (concat #b00 x))) (ite (bvult y #x1a) (bvadd y #x41) (ite (bvult y #x34) (bvadd y #x47) (ite (bvult y #x3e) (bvsub y #x04) (ite (= y #x3e) #x2d #x5f))))))
(define-fun b64std ((x (_ BitVec 6))) (_ BitVec 8) (let ((y (concat #b00 x))) (ite (bvult y #x1a) (bvadd y #x41) (ite (bvult y #x34) (bvadd y #x47) (ite (bvult y #x3e) (bvsub y #x04) (ite (= y #x3e) #x2b #x2f))))))
`

func NewSolver(ctx *Ctx, stats *SolverStats, prog string, timeoutMs int) (*Solver, error) {
	s := &Solver{ctx: ctx, stats: stats, timeout: timeoutMs, prog: prog}
	return s, s.start()
}

func (s *Solver) start() error {
	var args []string
	switch {
	case strings.Contains(s.prog, "cvc5"):
		args = []string{"--lang=smt2", "--incremental", "--produce-models", "--global-declarations", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	default:
		args = []string{"-in", "-smt2"}
	}
	cmd := exec.Command(s.prog, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd, s.in, s.inPipe, s.out = cmd, bufio.NewWriterSize(in, 1<<16), in, bufio.NewReaderSize(out, 1<<16)
	s.defined = map[*Term]string{}
	s.stack = nil
	pre := prelude
	if strings.Contains(s.prog, "cvc5") {
		pre = strings.Replace(pre, "(set-option :print-success false)\n", "(set-logic QF_BV)\n", 1)
	}
	s.in.WriteString(pre)
	if !strings.Contains(s.prog, "cvc5") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout)
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	s.inPipe.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) Reset() error {
	s.Close()
	atomic.AddInt64(&s.stats.restarts, 1)
	return s.start()
}

func bvlit(v uint64, w uint16) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func sortOf(w uint16) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

// name emits the definitions t needs and returns its SMT name.
func (s *Solver) name(t *Term) string {
	if t.op == OpConst {
		return bvlit(t.k, t.w)
	}
	if n, ok := s.defined[t]; ok {
		return n
	}
	if t.op == OpVar {
		n := "v" + strconv.Itoa(t.id)
		fmt.Fprintf(s.in, "(declare-const %s %s)\n", n, sortOf(t.w))
		s.defined[t] = n
		return n
	}
	names := make([]string, len(t.args))
	for i, a := range t.args {
		names[i] = s.name(a)
	}
	var body string
	switch t.op {
	case OpExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, names[0])
	case OpZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, names[0])
	case OpSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, names[0])
	default:
		body = "(" + opNames[t.op] + " " + strings.Join(names, " ") + ")"
	}
	n := "t" + strconv.Itoa(t.id)
	fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", n, sortOf(t.w), body)
	s.defined[t] = n
	return n
}

// dump writes a standalone script of the query.
func (s *Solver) dump(file string, pc []*Term, extra *Term) {
	f, err := os.Create(file)
	if err != nil {
		return
	}
	d := &Solver{ctx: s.ctx, in: bufio.NewWriter(f), defined: map[*Term]string{}}
	d.in.WriteString(prelude)
	for _, t := range append(append([]*Term(nil), pc...), extra) {
		if t != nil {
			n := d.name(t)
			fmt.Fprintf(d.in, "(assert %s)\n", n)
		}
	}
	d.in.WriteString("(check-sat)\n")
	d.in.Flush()
	f.Close()
}

// sync makes the assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	i := 0
	for i < len(pc) && i < len(s.stack) && same(pc[i], s.stack[i]) {
		i++
	}
	if d := len(s.stack) - i; d > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", d)
		s.stack = s.stack[:i]
	}
	for ; i < len(pc); i++ {
		n := s.name(pc[i])
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", n)
		s.stack = append(s.stack, pc[i])
	}
}

// Check decides pc /\ extra. With vars non-nil and a sat answer, their values are returned.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Result, map[*Term]uint64, error) {
	t0 := time.Now()
	s.sync(pc)
	if extra != nil {
		n := s.name(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", n)
	}
	for _, v := range vars {
		s.name(v)
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return Unknown, nil, err
	}
	line, err := s.readLine()
	if err != nil {
		return Unknown, nil, err
	}
	r := Unknown
	switch line {
	case "sat":
		r = Sat
		atomic.AddInt64(&s.stats.sat, 1)
	case "unsat":
		r = Unsat
		atomic.AddInt64(&s.stats.unsat, 1)
	case "unknown", "timeout":
		atomic.AddInt64(&s.stats.unknown, 1)
	default:
		return Unknown, nil, fmt.Errorf("solver: %s", line)
	}
	atomic.AddInt64(&s.stats.queries, 1)
	var m map[*Term]uint64
	if r == Sat && len(vars) > 0 {
		m = map[*Term]uint64{}
		for i := 0; i < len(vars); i += 200 {
			j := min(i+200, len(vars))
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars[i:j] {
				sb.WriteString(s.name(v))
				sb.WriteByte(' ')
			}
			sb.WriteString("))\n")
			s.in.WriteString(sb.String())
			if err := s.in.Flush(); err != nil {
				return Unknown, nil, err
			}
			txt, err := s.readSexp()
			if err != nil {
				return Unknown, nil, err
			}
			vals, err := parseValues(txt)
			if err != nil {
				return Unknown, nil, err
			}
			for _, v := range vars[i:j] {
				x, ok := vals[s.defined[v]]
				if !ok {
					return Unknown, nil, fmt.Errorf("solver: no value for %s", v.name)
				}
				m[v] = x
			}
		}
	}
	if extra != nil {
		s.in.WriteString("(pop 1)\n")
	}
	atomic.AddInt64(&s.stats.nanos, int64(time.Since(t0)))
	return r, m, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
		if err != nil {
			return "", err
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth, started := 0, false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		}
		if b == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func parseValues(txt string) (map[string]uint64, error) {
	m := map[string]uint64{}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	if len(f) > 0 && f[0] == "error" {
		return nil, fmt.Errorf("solver: %s", txt)
	}
	for i := 0; i+1 < len(f); i += 2 {
		n, v := f[i], f[i+1]
		switch {
		case v == "true":
			m[n] = 1
		case v == "false":
			m[n] = 0
		case strings.HasPrefix(v, "#x"):
			x, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return nil, err
			}
			m[n] = x
		case strings.HasPrefix(v, "#b"):
			x, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return nil, err
			}
			m[n] = x
		default:
			return nil, fmt.Errorf("solver: cannot parse value %q in %s", v, txt)
		}
	}
	return m, nil
}
