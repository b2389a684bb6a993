package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one recorded choice of a path; a path is re-executed from its decisions.
type Decision struct {
	kind   byte // 'b' branch, 'v' value, 'a' assertion
	val    uint64
	taken  bool
	forced bool
}

type Prefix struct {
	dec []Decision
}

// abortPath ends a path early.
type abortPath struct {
	kind   string // "infeasible", "unsupported", "limit", "stop"
	reason string
}

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v     Iface
	trace string
}

type Violation struct {
	Label   string
	Inputs  []Input
	Trace   string
	Covers  []string
	NoModel bool
}

type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"` // int, bool, str
	Int  int64  `json:"int,omitempty"`
	Str  []byte `json:"str,omitempty"`
	N    int    `json:"n"`
}

type inputVar struct {
	name string
	kind string
	val  Value
	sgn  bool
}

type PathResult struct {
	status    string // "done", "infeasible", "unsupported", "limit"
	reason    string
	steps     int64
	decisions int
	covers    []string
	inputs    []Input // a model of the completed path
	observed  []string
}

// Path is the state of one symbolic execution.
type Path struct {
	spec   bool // evaluating a merged region: nothing may fork
	w      *Worker
	c      *Ctx
	prefix []Decision
	seed   map[string]uint64 // assignment that reaches the end of the prefix
	base   *Model            // last model before a constraint it violates
	di     int
	dec    []Decision
	pc     []*Term
	lits   map[*Term]bool
	subst  map[*Term]*Term
	model  *Model
	vars   []*Term
	varSet map[*Term]bool
	apps   []*App
	inputs []inputVar
	labels map[string]int

	globals map[*ssa.Global]*Value
	pkgInit map[*ssa.Package]int
	started []func()    // goroutines that have not run yet
	side    map[any]any // engine state attached to addresses (locks, sync.Map, ...)

	now      *Term // seconds since the epoch
	nowNs    *Term
	steps    int64
	depth    int
	covers   []string
	nfresh   int
	filled   map[string]Value // inputs made by vs.Fill
	curFn    *ssa.Function
	stack    []*ssa.Function
	depthMsg string
	frames   []*frame

	threads    []*thread
	cur        *thread
	mainVC     []int
	accs       map[any]*access
	preempt    int
	failure    string
	quiet      int // accesses are not recorded while packages are initialised
	maxPreempt int
}

func (p *Path) unsupported(reason string) abortPath {
	return abortPath{"unsupported", reason + p.where()}
}

func (p *Path) where() string {
	var sb strings.Builder
	n := 0
	for i := len(p.frames) - 1; i >= 0 && n < 6; i-- {
		fr := p.frames[i]
		pos := ""
		if fr.instr != nil {
			ps := p.w.e.prog.Fset.Position(fr.instr.Pos())
			if ps.IsValid() {
				pos = fmt.Sprintf(":%s:%d", ps.Filename[strings.LastIndex(ps.Filename, "/")+1:], ps.Line)
			}
		}
		sb.WriteString(" < " + fr.fn.String() + pos)
		n++
	}
	return sb.String()
}

func (p *Path) known(t *Term) *Term {
	if t.op == OpConst || len(p.subst) == 0 {
		return t
	}
	if r, ok := p.subst[t]; ok {
		return r
	}
	return t
}

func (p *Path) learn(c *Term, v bool) {
	if c.op == OpConst {
		return
	}
	if c.op == OpNot {
		p.learn(c.args[0], !v)
		return
	}
	if _, ok := p.lits[c]; ok {
		return
	}
	p.lits[c] = v
	// complementary comparison forms
	switch c.op {
	case OpUlt, OpUle, OpSlt, OpSle:
		n := p.c.Not(c)
		if n.op != OpConst {
			p.lits[n] = !v
		}
	}
	if v {
		switch c.op {
		case OpAnd:
			p.learn(c.args[0], true)
			p.learn(c.args[1], true)
		case OpEq:
			if c.args[1].op == OpConst {
				p.subst[c.args[0]] = c.args[1]
				if a := c.args[0]; a.op == OpZext && a.args[0].op != OpConst {
					p.subst[a.args[0]] = K(c.args[1].k, a.args[0].w)
				}
			}
		}
	} else if c.op == OpOr {
		p.learn(c.args[0], false)
		p.learn(c.args[1], false)
	}
}

// litValue evaluates c from what the path already knows: 1 true, 0 false, -1 unknown.
func (p *Path) litValue(c *Term) int {
	switch c.op {
	case OpConst:
		return int(c.k)
	case OpNot:
		if r := p.litValue(c.args[0]); r >= 0 {
			return 1 - r
		}
		return -1
	}
	if v, ok := p.lits[c]; ok {
		return int(b2u(v))
	}
	switch c.op {
	case OpAnd:
		a := p.litValue(c.args[0])
		if a == 0 {
			return 0
		}
		b := p.litValue(c.args[1])
		if b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
	case OpOr:
		a := p.litValue(c.args[0])
		if a == 1 {
			return 1
		}
		b := p.litValue(c.args[1])
		if b == 1 {
			return 1
		}
		if a == 0 && b == 0 {
			return 0
		}
	case OpEq:
		if x, ok := p.subst[c.args[0]]; ok && c.args[1].op == OpConst {
			return int(b2u(same(x, c.args[1])))
		}
	}
	return -1
}

func (p *Path) assume(c *Term) {
	if c.op == OpConst {
		if c.k == 0 {
			panic(abortPath{"infeasible", "assume false"})
		}
		return
	}
	p.pc = append(p.pc, p.c.canon(c))
	p.learn(c, true)
}

// axiom adds a fact that is consistent by construction.
func (p *Path) axiom(c *Term) {
	if c.op == OpConst && c.k == 1 {
		return
	}
	if c.op == OpConst {
		panic(abortPath{"infeasible", "axiom"})
	}
	p.pc = append(p.pc, p.c.canon(c))
	p.learn(c, true)
	if p.model != nil && p.model.Eval(c) == 0 {
		p.dropModel()
	}
}

func (p *Path) addVar(t *Term) {
	if !p.varSet[t] {
		p.varSet[t] = true
		p.vars = append(p.vars, t)
	}
}

func (p *Path) replaying() bool { return p.di < len(p.prefix) }

// solve asks the solver for pc /\ extra; wantModel returns values for the variables.
func (p *Path) solve(extra *Term, wantModel bool) (Result, *Model) {
	if extra != nil && extra.op == OpConst {
		if extra.k == 0 {
			return Unsat, nil
		}
		extra = nil
	}
	if p.model != nil {
		if extra == nil {
			return Sat, p.model
		}
		return p.slicedSolve(p.model, []*Term{extra})
	}
	return p.fullSolve(extra, wantModel)
}

func (p *Path) fullSolve(extra *Term, wantModel bool) (Result, *Model) {
	var vars []*Term
	if wantModel {
		vars = p.vars
	}
	r, vals, err := p.w.solver.Check(p.pc, extra, vars)
	if err != nil {
		p.w.e.noteErr(err)
		if e := p.w.solver.Reset(); e != nil {
			panic(abortPath{"unsupported", "solver died: " + err.Error()})
		}
		return Unknown, nil
	}
	if r == Unknown {
		r, vals = p.w.fallback(p.pc, extra, vars)
	}
	if r == Sat && wantModel {
		m := NewModel()
		for k, v := range vals {
			m.v[k] = v
		}
		return r, m
	}
	return r, nil
}

var debugInf = os.Getenv("GOSYM_DEBUG") != ""

// ensureModel makes p.model a model of the path condition; ends the path when there is none.
func (p *Path) ensureModel() {
	if p.model != nil {
		return
	}
	base := p.base
	if base == nil && p.seed != nil {
		base = NewModel()
		for _, v := range p.vars {
			if x, ok := p.seed[v.name]; ok {
				base.v[v] = x
			}
		}
	}
	var r Result
	var m *Model
	if base != nil {
		var bad []*Term
		for _, t := range p.pc {
			if base.Eval(t) == 0 {
				bad = append(bad, t)
			}
		}
		if len(bad) == 0 {
			p.model = base
			return
		}
		r, m = p.slicedSolve(base, bad)
	} else {
		r, m = p.fullSolve(nil, true)
	}
	switch r {
	case Unsat:
		if debugInf {
			p.w.solver.dump("/tmp/dump/inf.smt2", p.pc, nil)
		}
		panic(abortPath{"infeasible", "no model" + p.where()})
	case Sat:
		p.model = m
	default:
		panic(abortPath{"unsupported", "solver unknown on path condition" + p.where()})
	}
}

// dropModel forgets a model that a new constraint violates.
func (p *Path) dropModel() {
	p.base, p.model = p.model, nil
}

// branch decides a condition, forking when both sides are feasible.
func (p *Path) branch(c *Term) bool {
	if c.op == OpConst {
		return c.k != 0
	}
	if v := p.litValue(c); v >= 0 {
		return v == 1
	}
	if p.spec {
		panic(specAbort{})
	}
	if p.replaying() {
		d := p.prefix[p.di]
		if d.kind != 'b' {
			panic(abortPath{"unsupported", fmt.Sprintf("replay mismatch: want branch, have %c", d.kind) + p.where()})
		}
		p.di++
		p.dec = append(p.dec, d)
		p.take(c, d.taken, d.forced)
		return d.taken
	}
	p.tick()
	p.ensureModel()
	v := p.model.Eval(c) != 0
	other := c
	if v {
		other = p.c.Not(c)
	}
	r, om := p.solve(other, false)
	d := Decision{kind: 'b', taken: v, forced: r == Unsat}
	if r != Unsat {
		forkAt(p)
		p.w.push(p.dec, Decision{kind: 'b', taken: !v}, om)
	}
	p.dec = append(p.dec, d)
	p.take(c, v, d.forced)
	return v
}

func (p *Path) take(c *Term, v, forced bool) {
	t := c
	if !v {
		t = p.c.Not(c)
	}
	if !forced {
		p.pc = append(p.pc, p.c.canon(t))
	}
	p.learn(c, v)
}

// concretize forks over the values of t.
func (p *Path) concretize(t *Term, why string) uint64 {
	t = p.known(t)
	if t.op == OpConst {
		return t.k
	}
	if p.spec {
		panic(specAbort{})
	}
	if t.op == OpIte && t.w > 0 && iteConst(t, iteFuel) {
		// fork over the guards of the ite tree
		for t.op == OpIte {
			if p.branch(t.args[0]) {
				t = t.args[1]
			} else {
				t = t.args[2]
			}
		}
		return t.k
	}
	for n := 0; ; n++ {
		var v uint64
		if p.replaying() {
			d := p.prefix[p.di]
			if d.kind != 'v' {
				panic(abortPath{"unsupported", fmt.Sprintf("replay mismatch: want value, have %c", d.kind) + p.where()})
			}
			p.di++
			p.dec = append(p.dec, d)
			p.take(p.c.Eq(t, K(d.val, t.w)), d.taken, d.forced)
			if d.taken {
				return d.val
			}
			continue
		}
		p.tick()
		p.ensureModel()
		v = p.model.Eval(t)
		eq := p.c.Eq(t, K(v, t.w))
		r, om := p.solve(p.c.Not(eq), false)
		d := Decision{kind: 'v', val: v, taken: true, forced: r == Unsat}
		if r != Unsat {
			if n >= p.w.e.opt.maxConc || p.concCount(t) >= p.w.e.opt.maxConc {
				p.w.noteCut("more than " + fmt.Sprint(p.w.e.opt.maxConc) + " values of a symbolic " + why + p.where())
			} else {
				forkAt(p)
				p.w.push(p.dec, Decision{kind: 'v', val: v, taken: false}, om)
			}
		}
		p.dec = append(p.dec, d)
		p.take(eq, true, d.forced)
		return v
	}
}

// pin keeps one feasible value of t and leaves the others outside the bound.
func (p *Path) pin(t *Term, why string) uint64 {
	t = p.known(t)
	if t.op == OpConst {
		return t.k
	}
	if p.spec {
		panic(specAbort{})
	}
	if p.replaying() {
		d := p.prefix[p.di]
		if d.kind != 'v' {
			panic(abortPath{"unsupported", fmt.Sprintf("replay mismatch: want value, have %c", d.kind) + p.where()})
		}
		p.di++
		p.dec = append(p.dec, d)
		p.take(p.c.Eq(t, K(d.val, t.w)), true, false)
		return d.val
	}
	p.tick()
	p.ensureModel()
	v := p.model.Eval(t)
	p.w.noteCut("one value only of a symbolic " + why + p.where())
	p.dec = append(p.dec, Decision{kind: 'v', val: v, taken: true})
	p.take(p.c.Eq(t, K(v, t.w)), true, false)
	return v
}

// concCount counts consecutive refused values at the end of the decision list.
func (p *Path) concCount(t *Term) int {
	n := 0
	for i := len(p.dec) - 1; i >= 0; i-- {
		if p.dec[i].kind == 'v' && !p.dec[i].taken {
			n++
		} else {
			break
		}
	}
	return n
}

func (p *Path) tick() {
	if p.w.e.expired() {
		p.w.pushBack(p.prefixCopy(), p.model)
		panic(abortPath{"stop", "time limit"})
	}
	if len(p.dec) > p.w.e.opt.maxDec {
		panic(abortPath{"limit", fmt.Sprintf("more than %d decisions", p.w.e.opt.maxDec) + p.where()})
	}
}

func (p *Path) prefixCopy() []Decision { return append([]Decision(nil), p.dec...) }

// vsAssume implements vs.Assume.
func (p *Path) vsAssume(c *Term) {
	switch p.litValue(c) {
	case 1:
		return
	case 0:
		panic(abortPath{"infeasible", "assume" + p.where()})
	}
	p.assume(c)
	if p.model != nil && p.model.Eval(c) == 0 {
		p.dropModel()
	}
	if !p.replaying() && p.model == nil {
		p.ensureModel()
	}
}

// vsAssert implements vs.Assert.
func (p *Path) vsAssert(c *Term, label string) {
	p.w.e.countAssert(label)
	switch p.litValue(c) {
	case 1:
		p.w.e.discharge(label, true)
		return
	}
	if p.replaying() {
		d := p.prefix[p.di]
		if d.kind != 'a' {
			panic(abortPath{"unsupported", fmt.Sprintf("replay mismatch: want assertion, have %c", d.kind) + p.where()})
		}
		p.di++
		p.dec = append(p.dec, d)
		if d.taken {
			p.learn(c, true)
		} else {
			p.assume(c)
		}
		return
	}
	p.tick()
	p.ensureModel()
	neg := p.c.Not(c)
	var bad *Model
	var r Result
	if p.model != nil && p.model.Eval(c) == 0 {
		r, bad = Sat, p.model
	} else {
		r, bad = p.solve(neg, true)
	}
	switch r {
	case Unsat:
		p.w.e.discharge(label, false)
		p.w.crossCheck(p.pc, neg)
		p.dec = append(p.dec, Decision{kind: 'a', taken: true})
		p.learn(c, true)
	case Sat:
		p.report(label, neg, bad)
		p.dec = append(p.dec, Decision{kind: 'a', taken: false})
		if p.litValue(c) == 0 {
			panic(abortPath{"done", "assertion fails"})
		}
		p.assume(c)
		if p.model != nil && p.model.Eval(c) == 0 {
			p.dropModel()
		}
		p.ensureModelOrDone()
	default:
		p.w.e.unknownAssert(label)
		p.dec = append(p.dec, Decision{kind: 'a', taken: true})
		p.assume(c)
	}
}

// vsPossible asserts that some value of the inputs that reach this point makes c true.
func (p *Path) vsPossible(c *Term, label string) {
	p.w.e.countAssert(label)
	if p.litValue(c) == 1 {
		p.w.e.discharge(label, true)
		return
	}
	if p.replaying() {
		d := p.prefix[p.di]
		if d.kind != 'p' {
			panic(abortPath{"unsupported", fmt.Sprintf("replay mismatch: want possibility, have %c", d.kind) + p.where()})
		}
		p.di++
		p.dec = append(p.dec, d)
		return
	}
	p.tick()
	p.ensureModel()
	r := Sat
	if p.model == nil || p.model.Eval(c) == 0 {
		r, _ = p.solve(c, true)
	}
	switch r {
	case Sat:
		p.w.e.discharge(label, false)
	case Unsat:
		p.report(label, True, p.model)
	default:
		p.w.e.unknownAssert(label)
	}
	p.dec = append(p.dec, Decision{kind: 'p', taken: r == Sat})
}

func (p *Path) ensureModelOrDone() {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abortPath); ok && a.kind == "infeasible" {
				panic(abortPath{"done", "assertion fails on every input of this path"})
			}
			panic(r)
		}
	}()
	p.ensureModel()
}

// report records a candidate violation, grounding the hash applications in the real functions.
func (p *Path) report(label string, neg *Term, m *Model) {
	if p.w.e.enough(label) {
		return
	}
	if g := p.ground(neg, m); g != nil {
		m = g
	}
	v := Violation{Label: label, Inputs: p.modelInputs(m), Trace: p.where() + p.failure, Covers: append([]string(nil), p.covers...)}
	p.w.e.addViolation(v)
}

// ground looks for a model in which every hash application has its real value.
func (p *Path) ground(neg *Term, m *Model) *Model {
	if len(p.apps) == 0 {
		return m
	}
	ok := true
	var fix []*Term
	for round := 0; round < 6; round++ {
		ok = true
		fix = fix[:0]
		for _, a := range p.apps {
			args := make([]string, len(a.args))
			conc := true
			for i, x := range a.args {
				args[i] = p.evalStr(m, x)
				if _, is := x.(string); !is {
					conc = false
				}
			}
			if conc {
				continue
			}
			h := nativeHash(a.fn, len(a.outs), args)
			for i, x := range a.args {
				fix = append(fix, p.strEq(x, args[i]))
			}
			for i, t := range a.outs {
				fix = append(fix, p.c.Eq(t, K(uint64(h[i]), 8)))
				if m.Eval(t) != uint64(h[i]) {
					ok = false
				}
			}
		}
		if ok {
			return m
		}
		pc := append(append([]*Term(nil), p.pc...), neg)
		for _, f := range fix {
			if f.op == OpConst {
				if f.k == 0 {
					return nil
				}
				continue
			}
			pc = append(pc, p.c.canon(f))
		}
		r, vals, err := p.w.solver.Check(pc, nil, p.vars)
		if err != nil {
			p.w.solver.Reset()
			return nil
		}
		if r == Sat {
			nm := NewModel()
			for k, v := range vals {
				nm.v[k] = v
			}
			return nm
		}
		// these arguments are impossible with real hashes: keep them fixed out and retry
		argEq := True
		for _, a := range p.apps {
			for _, x := range a.args {
				argEq = p.c.And(argEq, p.strEq(x, p.evalStr(m, x)))
			}
		}
		neg = p.c.And(neg, p.c.Not(argEq))
		r, nm := p.solve(neg, true)
		if r != Sat {
			return nil
		}
		m = nm
	}
	return nil
}

func (p *Path) modelInputs(m *Model) []Input {
	var out []Input
	for _, in := range p.inputs {
		i := Input{Name: in.name, Kind: in.kind}
		switch v := in.val.(type) {
		case *Term:
			x := m.Eval(v)
			if in.sgn {
				i.Int = sext64(x, v.w)
			} else {
				i.Int = int64(x)
			}
		default:
			i.Str = []byte(p.evalStr(m, v))
			i.N = len(i.Str)
		}
		out = append(out, i)
	}
	return out
}

// run executes the harness function once.
func (p *Path) run(fn *ssa.Function) (res PathResult) {
	defer func() {
		p.killThreads()
		res.steps = p.steps
		res.decisions = len(p.dec)
		res.covers = p.covers
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case abortPath:
			res.status, res.reason = r.kind, r.reason
			if debugInf && r.kind == "infeasible" {
				fmt.Fprintln(os.Stderr, "INFEASIBLE", r.reason)
			}
		case *targetPanic:
			res.status = "panic"
			res.reason = p.panicText(r.v) + r.trace
		default:
			res.status = "unsupported"
			res.reason = fmt.Sprintf("engine: %v%s", r, p.where())
			if p.w.e.opt.verbose {
				res.reason += "\n" + string(debug.Stack())
			}
		}
		// a panic that ends the harness is a violation of its own
		if res.status == "panic" || res.status == "deadlock" || res.status == "race" {
			func() {
				defer func() {
					if q := recover(); q != nil {
						if a, ok := q.(abortPath); ok {
							res.status, res.reason = a.kind, a.reason
							return
						}
						panic(q)
					}
				}()
				p.ensureModel()
				p.failure = " (" + res.reason + ")"
				p.report(res.status, True, p.model)
			}()
		}
	}()
	p.call(nil, fn, nil, nil)
	if p.replaying() {
		return PathResult{status: "unsupported", reason: "replay ended early"}
	}
	res.status = "done"
	if p.w.e.wantTrace() {
		p.ensureModel()
		m := p.ground(True, p.model)
		if m != nil {
			res.inputs = p.modelInputs(m)
		}
	} else if p.model == nil {
		// the path is known feasible unless its last fork was never checked
		r, _ := p.solve(nil, false)
		if r == Unsat {
			res.status = "infeasible"
		}
	}
	return res
}

func (p *Path) panicText(v Iface) string {
	if v.t == nil {
		return "panic(nil)"
	}
	if s, ok := v.v.(string); ok {
		return "panic: " + s
	}
	if c, ok := v.v.(*Value); ok && c != nil {
		if st, ok := (*c).(StructV); ok && len(st) > 0 {
			if s, ok := st[0].(string); ok {
				return "panic: " + s
			}
		}
	}
	return "panic of type " + types.TypeString(v.t, nil)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = time.Now

// Fork profile, with GOSYM_FORKS set.
var forkSites = func() map[string]int {
	if os.Getenv("GOSYM_FORKS") != "" {
		return map[string]int{}
	}
	return nil
}()
var forkMu sync.Mutex

func forkAt(p *Path) {
	if forkSites == nil {
		return
	}
	s := p.where()
	forkMu.Lock()
	forkSites[s]++
	forkMu.Unlock()
}

func forkReport() {
	type e struct {
		s string
		n int
	}
	var l []e
	for s, n := range forkSites {
		l = append(l, e{s, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i, x := range l {
		if i < 15 {
			fmt.Fprintln(os.Stderr, x.n, x.s)
		}
	}
}
