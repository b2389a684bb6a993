package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Options struct {
	workers    int
	timeout    time.Duration // per harness
	qms        int           // per query
	maxSteps   int64
	maxDec     int
	maxConc    int
	maxPreempt int
	maxPaths   int
	traces     int // path models kept for native validation
	cross      int // assertion queries re-decided by a second solver
	solver     string
	cross1     string
	verbose    bool
	perLabel   int
	confirm    map[string]int
}

// Engine explores one harness.
type Engine struct {
	opt   Options
	prog  *ssa.Program
	world *World
	stats SolverStats

	mu       sync.Mutex
	cond     *sync.Cond
	frontier []work
	active   int
	deadline time.Time
	stopped  int32

	paths      map[string]int
	incomplete map[string]int
	steps      int64
	decisions  int64
	asserts    map[string]int
	discharged map[string]int
	trivial    map[string]int
	unknowns   map[string]int
	covers     map[string]int
	violations []Violation
	vioCount   map[string]int
	fns        map[string]bool
	cuts       map[string]int
	errs       []string
	traces     []PathResult
	pathN      int64
	crossN     int64
	maxLen     int
	limits     map[string]string
	thorough   bool
}

func NewEngine(w *World, opt Options) *Engine {
	e := &Engine{opt: opt, world: w, prog: w.prog, paths: map[string]int{}, incomplete: map[string]int{}, asserts: map[string]int{},
		discharged: map[string]int{}, trivial: map[string]int{}, unknowns: map[string]int{}, covers: map[string]int{}, fns: map[string]bool{},
		cuts: map[string]int{}, vioCount: map[string]int{}}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Engine) expired() bool {
	return atomic.LoadInt32(&e.stopped) != 0 || time.Now().After(e.deadline)
}
func (e *Engine) noteErr(err error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.errs) < 10 {
		e.errs = append(e.errs, err.Error())
	}
}
func (e *Engine) countAssert(l string) { e.mu.Lock(); e.asserts[l]++; e.mu.Unlock() }
func (e *Engine) discharge(l string, trivial bool) {
	e.mu.Lock()
	e.discharged[l]++
	if trivial {
		e.trivial[l]++
	}
	e.mu.Unlock()
}
func (e *Engine) unknownAssert(l string) { e.mu.Lock(); e.unknowns[l]++; e.mu.Unlock() }
func (e *Engine) enough(l string) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.vioCount[l] >= e.opt.perLabel
}
func (e *Engine) addViolation(v Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.vioCount[v.Label]++
	e.violations = append(e.violations, v)
}
func (e *Engine) wantTrace() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.traces) >= e.opt.traces {
		return false
	}
	n := e.pathN
	// the first few paths, then ever sparser ones
	return n < 4 || n%7 == 3
}

// Worker owns a term context and a solver.
type Worker struct {
	e      *Engine
	ctx    *Ctx
	solver *Solver
	alt    *Solver
	shared map[*ssa.Global]*Value
	shInit map[*ssa.Package]int
	fnSeen map[*ssa.Function]bool
	side   map[any]any
	cache  map[string]cached
	slots  map[*Term][]*Term
}

// work is an unexplored branch and the assignment known to reach it.
type work struct {
	dec []Decision
	m   map[string]uint64
}

func (w *Worker) push(dec []Decision, d Decision, m *Model) {
	n := append(append(make([]Decision, 0, len(dec)+1), dec...), d)
	w.pushBack(n, m)
}
func (w *Worker) pushBack(dec []Decision, m *Model) {
	n := work{dec: dec, m: m.byName()}
	e := w.e
	e.mu.Lock()
	e.frontier = append(e.frontier, n)
	e.mu.Unlock()
	e.cond.Signal()
}
func (w *Worker) noteCut(why string) {
	e := w.e
	e.mu.Lock()
	if i := strings.Index(why, " < "); i > 0 && !e.opt.verbose {
		j := strings.Index(why[i+3:], " < ")
		if j > 0 {
			why = why[:i+3+j]
		}
	}
	e.cuts[why]++
	e.mu.Unlock()
}

func (w *Worker) fallback(pc []*Term, extra *Term, vars []*Term) (Result, map[*Term]uint64) {
	if w.e.opt.cross1 == "" {
		return Unknown, nil
	}
	if w.alt == nil {
		s, err := NewSolver(w.ctx, &w.e.stats, w.e.opt.cross1, w.e.opt.qms*2)
		if err != nil {
			return Unknown, nil
		}
		w.alt = s
	}
	r, v, err := w.alt.Check(pc, extra, vars)
	if err != nil {
		w.alt.Reset()
		return Unknown, nil
	}
	return r, v
}

// crossCheck re-decides an unsat assertion query with a second solver.
func (w *Worker) crossCheck(pc []*Term, neg *Term) {
	if atomic.AddInt64(&w.e.crossN, 1) > int64(w.e.opt.cross) {
		return
	}
	r, _ := w.fallback(pc, neg, nil)
	switch r {
	case Unsat:
		atomic.AddInt64(&w.e.stats.crossOK, 1)
	case Sat:
		atomic.AddInt64(&w.e.stats.crossBad, 1)
		w.e.noteErr(fmt.Errorf("solver disagreement"))
	default:
		atomic.AddInt64(&w.e.stats.crossUnk, 1)
	}
}

func (w *Worker) newPath(wk work) *Path {
	return &Path{w: w, c: w.ctx, prefix: wk.dec, seed: wk.m, lits: map[*Term]bool{}, subst: map[*Term]*Term{}, varSet: map[*Term]bool{}, labels: map[string]int{},
		globals: map[*ssa.Global]*Value{}, pkgInit: map[*ssa.Package]int{}, side: map[any]any{}, accs: map[any]*access{}, maxPreempt: w.e.opt.maxPreempt, now: K64(1700000000), nowNs: K64(0)}
}

// Explore runs the harness to exhaustion or to its limits.
func (e *Engine) Explore(fn *ssa.Function) {
	e.deadline = time.Now().Add(e.opt.timeout)
	e.frontier = []work{{}}
	var wg sync.WaitGroup
	for i := 0; i < e.opt.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.work(fn)
		}()
	}
	wg.Wait()
	if n := len(e.frontier); n > 0 {
		e.incomplete[fmt.Sprintf("time or path limit: %d open branches left", n)] += n
	}
}

func (e *Engine) work(fn *ssa.Function) {
	var w *Worker
	defer func() {
		if w != nil {
			w.solver.Close()
			if w.alt != nil {
				w.alt.Close()
			}
			e.mu.Lock()
			for f := range w.fnSeen {
				e.fns[fnName(f)] = true
			}
			e.mu.Unlock()
		}
	}()
	for {
		e.mu.Lock()
		for len(e.frontier) == 0 && e.active > 0 && !e.expired() {
			e.cond.Wait()
		}
		if len(e.frontier) == 0 || e.expired() || int(e.pathN) >= e.opt.maxPaths {
			e.mu.Unlock()
			e.cond.Broadcast()
			return
		}
		pre := e.frontier[len(e.frontier)-1]
		e.frontier = e.frontier[:len(e.frontier)-1]
		e.active++
		e.pathN++
		e.mu.Unlock()

		if w == nil || w.ctx.n > 400000 {
			seen := map[*ssa.Function]bool{}
			if w != nil {
				w.solver.Close()
				if w.alt != nil {
					w.alt.Close()
				}
				seen = w.fnSeen
			}
			ctx := NewCtx()
			s, err := NewSolver(ctx, &e.stats, e.opt.solver, e.opt.qms)
			if err != nil {
				fmt.Fprintln(os.Stderr, "cannot start solver:", err)
				os.Exit(2)
			}
			w = &Worker{e: e, ctx: ctx, solver: s, shared: map[*ssa.Global]*Value{}, shInit: map[*ssa.Package]int{}, fnSeen: seen, side: map[any]any{}, cache: map[string]cached{}, slots: map[*Term][]*Term{}}
		}
		p := w.newPath(pre)
		res := p.run(fn)

		e.mu.Lock()
		e.active--
		e.paths[res.status]++
		e.steps += res.steps
		e.decisions += int64(res.decisions)
		e.maxLen = max(e.maxLen, res.decisions)
		if res.status == "done" || res.status == "panic" || res.status == "deadlock" || res.status == "race" {
			seen := map[string]bool{}
			for _, c := range res.covers {
				if !seen[c] {
					e.covers[c]++
					seen[c] = true
				}
			}
		}
		if res.status == "unsupported" || res.status == "limit" {
			r := res.reason
			if !e.opt.verbose {
				parts := strings.Split(r, " < ")
				if len(parts) > 3 {
					parts = parts[:3]
				}
				r = strings.Join(parts, " < ")
			}
			e.incomplete[res.status+": "+r]++
		}
		if res.status == "done" && res.inputs != nil {
			e.traces = append(e.traces, res)
		}
		e.mu.Unlock()
		e.cond.Broadcast()
	}
}

func fnName(f *ssa.Function) string { return f.String() }

func (e *Engine) repoFunctions() []string {
	var out []string
	for f := range e.fns {
		if strings.Contains(f, "zntr.io/solid/") && !strings.Contains(f, "zzverif") {
			out = append(out, f)
		}
	}
	sort.Strings(out)
	return out
}
