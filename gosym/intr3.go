package main

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- threads and locks

// thread is a goroutine of the program under a cooperative scheduler.
type thread struct {
	id      int
	resume  chan bool // false: unwind
	parked  chan struct{}
	done    bool
	started bool
	err     any
	frames  []*frame
	waiting func() bool // nil when runnable
	vc      []int
}

type lockState struct {
	w  int // holders: 0 free, -1 written, n readers
	by map[int]int
	vc []int
}

type killed struct{}

func (p *Path) tid() int {
	if p.cur == nil {
		return 0
	}
	return p.cur.id
}

func vcJoin(a, b []int) []int {
	n := max(len(a), len(b))
	r := make([]int, n)
	for i := range r {
		if i < len(a) {
			r[i] = a[i]
		}
		if i < len(b) && b[i] > r[i] {
			r[i] = b[i]
		}
	}
	return r
}

func (p *Path) clock() []int {
	if p.cur == nil {
		return p.mainVC
	}
	return p.cur.vc
}
func (p *Path) setClock(v []int) {
	if p.cur == nil {
		p.mainVC = v
	} else {
		p.cur.vc = v
	}
}
func (p *Path) tickClock() {
	v := append([]int(nil), p.clock()...)
	for len(v) <= p.tid() {
		v = append(v, 0)
	}
	v[p.tid()]++
	p.setClock(v)
}

// yield gives the scheduler a chance to run another thread.
func (p *Path) yield(wait func() bool) {
	t := p.cur
	if t == nil {
		if wait != nil && wait() {
			panic(abortPath{"deadlock", "a lock is never released" + p.where()})
		}
		return
	}
	t.waiting = wait
	t.frames = p.frames
	t.parked <- struct{}{}
	if !<-t.resume {
		panic(killed{})
	}
	p.cur = t
	p.frames = t.frames
	t.waiting = nil
}

func (p *Path) spawn(f Value) {
	if len(p.threads) == 0 {
		p.tickClock()
	}
	t := &thread{id: len(p.threads) + 1, resume: make(chan bool), parked: make(chan struct{})}
	t.vc = append([]int(nil), p.clock()...)
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
	p.threads = append(p.threads, t)
	p.tickClock()
	go func() {
		if !<-t.resume {
			t.done = true
			t.parked <- struct{}{}
			return
		}
		defer func() {
			r := recover()
			if _, ok := r.(killed); !ok {
				t.err = r
			}
			t.done = true
			t.parked <- struct{}{}
		}()
		p.cur = t
		p.frames = nil
		p.callValue(nil, f, nil, nil)
	}()
}

func (p *Path) step(t *thread) {
	save := p.frames
	p.cur = t
	t.resume <- true
	<-t.parked
	p.cur = nil
	p.frames = save
	if t.err != nil {
		e := t.err
		t.err = nil
		panic(e)
	}
}

// join runs every thread to its end, forking over the schedules.
func (p *Path) join() {
	last := -1
	for {
		var run []int
		alive := 0
		for i, t := range p.threads {
			if t.done {
				continue
			}
			alive++
			if t.waiting == nil || !t.waiting() {
				run = append(run, i)
			}
		}
		if alive == 0 {
			break
		}
		if len(run) == 0 {
			panic(abortPath{"deadlock", "every thread waits for a lock"})
		}
		k := run[0]
		if len(run) > 1 {
			lastOK := false
			for _, i := range run {
				lastOK = lastOK || i == last
			}
			if lastOK && p.preempt >= p.maxPreempt {
				k = last
			} else {
				l := p.label("sched")
				v := p.newVar(l, 8)
				p.boundVar(v, 0, uint64(len(run)-1))
				p.input(l, "int", p.c.Zext(v, 64), true)
				k = run[p.concretize(v, "schedule")]
				if lastOK && k != last {
					p.preempt++
				}
			}
		}
		last = k
		p.step(p.threads[k])
	}
	v := p.mainVC
	for _, t := range p.threads {
		v = vcJoin(v, t.vc)
	}
	p.mainVC = v
	p.threads = nil
	p.tickClock()
}

func (p *Path) killThreads() {
	for _, t := range p.threads {
		if !t.done {
			t.resume <- false
			<-t.parked
		}
	}
	p.threads = nil
}

func (p *Path) lockOf(v Value) *lockState {
	c, ok := v.(*Value)
	if !ok || c == nil {
		p.nilDeref()
	}
	l, _ := p.side[c].(*lockState)
	if l == nil {
		l = &lockState{by: map[int]int{}}
		p.side[c] = l
	}
	return l
}

func (p *Path) lock(v Value, write bool) {
	l := p.lockOf(v)
	busy := func() bool { return l.w == -1 || write && l.w > 0 }
	if p.cur != nil && p.schedPoint() {
		p.yield(nil)
	}
	for busy() {
		p.yield(busy)
	}
	if write {
		l.w = -1
	} else {
		l.w++
	}
	p.setClock(vcJoin(p.clock(), l.vc))
}

func (p *Path) unlock(v Value, write bool) {
	l := p.lockOf(v)
	if write && l.w != -1 || !write && l.w <= 0 {
		panic(&targetPanic{Iface{p.w.e.world.runtimeErr, "fatal error: unlock of unlocked mutex"}, p.where()})
	}
	if write {
		l.w = 0
	} else {
		l.w--
	}
	l.vc = vcJoin(l.vc, p.clock())
	p.tickClock()
}

// schedPoint reports whether synchronisation in the current function is a scheduling point: the
// replay uses the same rule.
func (p *Path) schedPoint() bool {
	if len(p.frames) == 0 {
		return false
	}
	fn := p.frames[len(p.frames)-1].fn
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg == nil {
		return false
	}
	path := fn.Pkg.Pkg.Path()
	return (path == "zntr.io/solid" || strings.HasPrefix(path, "zntr.io/solid/") || path == "github.com/patrickmn/go-cache") && !strings.HasPrefix(path, "zntr.io/solid/zzverif/vs")
}

// syncOp is an atomic operation on a shared object: a scheduling point that orders everything
// before it with everything after later operations on that object.
func (p *Path) syncOp(obj any, point bool) {
	if len(p.threads) == 0 || p.spec {
		return
	}
	if point && p.cur != nil && p.schedPoint() {
		p.yield(nil)
	}
	type key struct{ c any }
	l, _ := p.side[key{obj}].(*lockState)
	if l == nil {
		l = &lockState{by: map[int]int{}}
		p.side[key{obj}] = l
	}
	p.setClock(vcJoin(p.clock(), l.vc))
	l.vc = vcJoin(l.vc, p.clock())
	p.tickClock()
}

// access is the race detector's record of a location.
type access struct {
	wT, wC int
	reads  map[int]int
}

// touch checks an access to a shared location against the accesses unordered with it.
func (p *Path) touch(key any, write bool) {
	if len(p.threads) == 0 || p.spec || p.quiet > 0 {
		return
	}
	a := p.accs[key]
	if a == nil {
		a = &access{wT: -1}
		p.accs[key] = a
	}
	vc := p.clock()
	at := func(t int) int {
		if t < len(vc) {
			return vc[t]
		}
		return 0
	}
	me := p.tid()
	if a.wT >= 0 && a.wT != me && a.wC > at(a.wT) {
		panic(abortPath{"race", "unsynchronised accesses" + p.where()})
	}
	if write {
		for t, c := range a.reads {
			if t != me && c > at(t) {
				panic(abortPath{"race", "unsynchronised accesses" + p.where()})
			}
		}
		a.wT, a.wC = me, at(me)
		a.reads = nil
		return
	}
	if a.reads == nil {
		a.reads = map[int]int{}
	}
	a.reads[me] = at(me)
}

// ---------------------------------------------------------------- regexp

var regexCache sync.Map

type rx struct {
	re   *regexp.Regexp
	prog *syntax.Prog
	// no instruction consumes a rune beyond ASCII
	ascii bool
}

func asciiOnly(pr *syntax.Prog) bool {
	for i := range pr.Inst {
		in := &pr.Inst[i]
		switch in.Op {
		case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			return false
		case syntax.InstRune, syntax.InstRune1:
			if len(in.Rune) == 1 && syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
				return false
			}
			for _, x := range in.Rune {
				if x >= 0x80 {
					return false
				}
			}
		}
	}
	return true
}

func compileRx(s string) (*rx, error) {
	if v, ok := regexCache.Load(s); ok {
		return v.(*rx), nil
	}
	re, err := regexp.Compile(s)
	if err != nil {
		return nil, err
	}
	t, _ := syntax.Parse(s, syntax.Perl)
	pr, err := syntax.Compile(t.Simplify())
	if err != nil {
		return nil, err
	}
	r := &rx{re, pr, asciiOnly(pr)}
	regexCache.Store(s, r)
	return r, nil
}

// rxMatch is the formula "r matches somewhere in v" by simulation of its automaton over bytes.
func (p *Path) rxMatch(r *rx, v Value) *Term {
	if s, ok := v.(string); ok {
		return KB(r.re.MatchString(s))
	}
	s := v.(*SymStr)
	if s.alts != nil {
		m := False
		for _, a := range s.alts {
			if r.re.MatchString(a.s) {
				m = p.c.Or(m, a.c)
			}
		}
		return m
	}
	c := p.c
	n := p.known(s.n)
	// non-ASCII input: the automaton below works on bytes, so only ASCII text is encoded
	// (which is also right for other text when no class of the expression has other members)
	if !r.ascii && !p.branch(p.allASCII(s.b)) {
		str := p.concStr(v, "non-ASCII text for a regular expression")
		return KB(r.re.MatchString(str))
	}
	state := map[uint32]*Term{}
	result := False
	for pos := 0; ; pos++ {
		atEnd := c.Eq(n, K(uint64(pos), 64))
		// start a new attempt at this position
		next := map[uint32]*Term{}
		var add func(pc uint32, cond *Term, seen map[uint32]bool)
		add = func(pc uint32, cond *Term, seen map[uint32]bool) {
			if cond == False || seen[pc] {
				return
			}
			seen[pc] = true
			defer delete(seen, pc)
			in := &r.prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				add(in.Out, cond, seen)
				add(in.Arg, cond, seen)
			case syntax.InstCapture, syntax.InstNop:
				add(in.Out, cond, seen)
			case syntax.InstEmptyWidth:
				w := syntax.EmptyOp(in.Arg)
				cc := cond
				if w&(syntax.EmptyBeginText|syntax.EmptyBeginLine) != 0 && pos != 0 {
					if w&syntax.EmptyBeginLine != 0 && w&syntax.EmptyBeginText == 0 {
						panic(p.unsupported("multi-line regular expression"))
					}
					return
				}
				if w&syntax.EmptyEndText != 0 {
					cc = c.And(cc, atEnd)
				}
				if w&(syntax.EmptyEndLine|syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
					panic(p.unsupported("regular expression assertion"))
				}
				add(in.Out, cc, seen)
			case syntax.InstMatch:
				result = c.Or(result, c.And(cond, c.Ule(K(uint64(pos), 64), n)))
			case syntax.InstFail:
			default:
				if o := next[pc]; o != nil {
					next[pc] = c.Or(o, cond)
				} else {
					next[pc] = cond
				}
			}
		}
		for pc, cond := range state {
			add(pc, cond, map[uint32]bool{})
		}
		add(uint32(r.prog.Start), c.Ule(K(uint64(pos), 64), n), map[uint32]bool{})
		if pos >= len(s.b) {
			break
		}
		b := s.b[pos]
		inText := c.Ult(K(uint64(pos), 64), n)
		state = map[uint32]*Term{}
		for pc := uint32(0); pc < uint32(len(r.prog.Inst)); pc++ {
			cond := next[pc]
			if cond == nil {
				continue
			}
			in := &r.prog.Inst[pc]
			var set string
			for k := 0; k < 128; k++ {
				if in.MatchRune(rune(k)) {
					set += string(rune(k))
				}
			}
			m := c.And(c.And(cond, inText), p.inSet(b, set))
			if m == False {
				continue
			}
			if o := state[in.Out]; o != nil {
				state[in.Out] = c.Or(o, m)
			} else {
				state[in.Out] = m
			}
		}
	}
	return result
}

// ---------------------------------------------------------------- deep copies

func deepCopy(v Value, seen map[*Value]*Value) Value {
	switch v := v.(type) {
	case *Lazy:
		if v.done {
			return deepCopy(v.v, seen)
		}
		c := *v
		return &c
	case *Value:
		if v == nil {
			return v
		}
		if c, ok := seen[v]; ok {
			return c
		}
		c := new(Value)
		seen[v] = c
		*c = deepCopy(*v, seen)
		return c
	case StructV:
		r := make(StructV, len(v))
		for i := range v {
			r[i] = deepCopy(v[i], seen)
		}
		return r
	case ArrayV:
		r := make(ArrayV, len(v))
		for i := range v {
			r[i] = deepCopy(v[i], seen)
		}
		return r
	case []Value:
		if v == nil {
			return v
		}
		r := make([]Value, len(v))
		for i := range v {
			r[i] = deepCopy(v[i], seen)
		}
		return r
	case *LazyBytes:
		if v == nil || v.arr == nil {
			return v
		}
		return deepCopy(v.arr, seen)
	case Iface:
		return Iface{v.t, deepCopy(v.v, seen)}
	case *MapV:
		if v == nil {
			return v
		}
		r := newMap(v.kt, v.vt)
		r.live, r.sym = v.live, v.sym
		for _, e := range v.entries {
			if e.dead {
				continue
			}
			ne := &mapEntry{k: e.k, v: deepCopy(e.v, seen)}
			r.entries = append(r.entries, ne)
			var sb strings.Builder
			if concKey(ne.k, &sb) {
				r.index[sb.String()] = ne
			}
		}
		return r
	}
	return v
}

// protoEq is proto.Equal over the exported structure of generated messages.
func (p *Path) deepEq(x, y Value) *Term {
	if a, ok := x.(*Lazy); ok {
		if b, ok := y.(*Lazy); ok && a.name == b.name && !a.done && !b.done {
			return True
		}
	}
	x, y = p.force(x), p.force(y)
	switch a := x.(type) {
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			return False
		}
		if a == nil || b == nil {
			return KB(a == nil && b == nil)
		}
		if a == b {
			return True
		}
		return p.deepEq(*a, *b)
	case StructV:
		b, ok := y.(StructV)
		if !ok || len(a) != len(b) {
			return False
		}
		r := True
		for i := range a {
			r = p.c.And(r, p.deepEq(a[i], b[i]))
			if r == False {
				break
			}
		}
		return r
	case ArrayV:
		return p.deepEq([]Value(a), []Value(y.(ArrayV)))
	case []Value:
		if lb, ok := y.(*LazyBytes); ok {
			return p.strEq(p.bytesStr(a), p.bytesStr(lb))
		}
		b, ok := y.([]Value)
		if !ok || len(a) != len(b) {
			return False
		}
		r := True
		for i := range a {
			r = p.c.And(r, p.deepEq(a[i], b[i]))
		}
		return r
	case *LazyBytes:
		return p.strEq(p.bytesStr(a), p.bytesStr(y))
	case Iface:
		b := y.(Iface)
		if a.t == nil || b.t == nil {
			return KB(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return False
		}
		return p.deepEq(a.v, b.v)
	case *MapV:
		b := y.(*MapV)
		if a == nil || b == nil {
			la, lb := 0, 0
			if a != nil {
				la = a.live
			}
			if b != nil {
				lb = b.live
			}
			return KB(la == lb)
		}
		if a.live != b.live {
			return False
		}
		r := True
		for _, e := range a.entries {
			f := p.mapFind(b, e.k)
			if f == nil {
				return False
			}
			r = p.c.And(r, p.deepEq(e.v, f.v))
		}
		return r
	case *Term:
		return p.c.Eq(a, y.(*Term))
	case string, *SymStr:
		return p.strEq(x, y)
	}
	return p.equals(nil, x, y)
}

// ---------------------------------------------------------------- ozzo-validation

func (p *Path) isEmptyVal(v Iface) *Term {
	if v.t == nil {
		return True
	}
	switch x := v.v.(type) {
	case string, *SymStr:
		return p.c.Eq(p.strLen(x), K(0, 64))
	case *Term:
		if x.w == 0 {
			return p.c.Not(x)
		}
		return p.c.Eq(x, K(0, x.w))
	case *Value:
		return KB(x == nil)
	case []Value:
		return KB(len(x) == 0)
	}
	panic(p.unsupported(fmt.Sprintf("validation of %T", v.v)))
}

func init() {
	// ---- threads
	vs := func(n string, f intrinsic) { reg(zz+"vs."+n, f) }
	vs("Go", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { p.spawn(a[0]); return nil })
	vs("Join", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { p.join(); return nil })
	vs("Yield", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { p.yield(nil); return nil })

	mu := func(name string, write, lock bool) {
		reg(name, func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			if lock {
				p.lock(a[0], write)
			} else {
				p.unlock(a[0], write)
			}
			return nil
		})
	}
	mu("(*sync.Mutex).Lock", true, true)
	mu("(*sync.Mutex).Unlock", true, false)
	mu("(*sync.RWMutex).Lock", true, true)
	mu("(*sync.RWMutex).Unlock", true, false)
	mu("(*sync.RWMutex).RLock", false, true)
	mu("(*sync.RWMutex).RUnlock", false, false)
	try := func(write bool) intrinsic {
		return func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			l := p.lockOf(a[0])
			if l.w == -1 || write && l.w > 0 {
				return False
			}
			p.lock(a[0], write)
			return True
		}
	}
	reg("(*sync.Mutex).TryLock", try(true))
	reg("(*sync.RWMutex).TryLock", try(true))
	reg("(*sync.RWMutex).TryRLock", try(false))
	vs("Locked", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return KB(p.lockOf(a[0].(Iface).v).w != 0)
	})
	reg("(*sync.Once).Do", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		c := a[0].(*Value)
		if c == nil {
			p.nilDeref()
		}
		type onceKey struct{ c *Value }
		if p.side[onceKey{c}] == nil && p.w.side[onceKey{c}] == nil {
			p.side[onceKey{c}] = true
			p.callValue(fr, a[1], nil, nil)
		}
		return nil
	})
	reg("(*sync.Pool).Get", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		s := (*(a[0].(*Value))).(StructV)
		f, _ := s[len(s)-1].(*Closure)
		if f == nil {
			return Iface{}
		}
		return p.callValue(fr, f, nil, nil)
	})
	reg("(*sync.Pool).Put", noop)
	reg("(*sync.WaitGroup).Add", noop)
	reg("(*sync.WaitGroup).Done", noop)
	reg("(*sync.WaitGroup).Wait", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { p.runStarted(); return nil })
	reg("(*sync.WaitGroup).Go", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.started = append(p.started, func() { p.callValue(fr, a[1], nil, nil) })
		return nil
	})
	reg("(*sync.Map).Load", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		if e := p.mapFind(p.syncMap(a[0]), a[1]); e != nil {
			return Tuple{e.v, True}
		}
		return Tuple{Iface{}, False}
	})
	reg("(*sync.Map).Store", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.mapSet(p.syncMap(a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).Delete", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.mapDelete(p.syncMap(a[0]), a[1])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		if e := p.mapFind(p.syncMap(a[0]), a[1]); e != nil {
			return Tuple{e.v, True}
		}
		p.mapSet(p.syncMap(a[0]), a[1], a[2])
		return Tuple{a[2], False}
	})
	reg("(*sync.Map).LoadAndDelete", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		if e := p.mapFind(p.syncMap(a[0]), a[1]); e != nil {
			v := e.v
			p.mapDelete(p.syncMap(a[0]), a[1])
			return Tuple{v, True}
		}
		return Tuple{Iface{}, False}
	})
	reg("(*sync.Map).Swap", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		r := Tuple{Iface{}, False}
		if e := p.mapFind(p.syncMap(a[0]), a[1]); e != nil {
			r = Tuple{e.v, True}
		}
		p.mapSet(p.syncMap(a[0]), a[1], a[2])
		return r
	})
	reg("(*sync.Map).Range", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		m := p.syncMap(a[0])
		for _, e := range append([]*mapEntry(nil), m.entries...) {
			if e.dead {
				continue
			}
			if !p.branch(p.callValue(fr, a[1], []Value{e.k, e.v}, nil).(*Term)) {
				break
			}
		}
		return nil
	})

	// ---- regexp
	comp := func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		r, err := compileRx(p.concStr(a[0], "pattern"))
		if err != nil {
			p.panicStr("regexp: " + err.Error())
		}
		return &Native{"regexp", r}
	}
	reg("regexp.MustCompile", comp)
	reg("regexp.Compile", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		r, err := compileRx(p.concStr(a[0], "pattern"))
		if err != nil {
			return Tuple{(*Native)(nil), p.mkErr(err.Error())}
		}
		return Tuple{&Native{"regexp", r}, Iface{}}
	})
	rxOf := func(p *Path, v Value) *rx {
		n, ok := v.(*Native)
		if !ok || n == nil {
			p.nilDeref()
		}
		return n.v.(*rx)
	}
	reg("(*regexp.Regexp).MatchString", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return p.rxMatch(rxOf(p, a[0]), a[1]) })
	reg("(*regexp.Regexp).Match", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return p.rxMatch(rxOf(p, a[0]), p.bytesStr(a[1]))
	})
	reg("regexp.MatchString", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		r, err := compileRx(p.concStr(a[0], "pattern"))
		if err != nil {
			return Tuple{False, p.mkErr(err.Error())}
		}
		return Tuple{p.rxMatch(r, a[1]), Iface{}}
	})
	reg("(*regexp.Regexp).String", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return rxOf(p, a[0]).re.String() })
	reg("(*regexp.Regexp).FindStringSubmatch", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		m := rxOf(p, a[0]).re.FindStringSubmatch(p.concStr(a[1], "submatch text"))
		if m == nil {
			return []Value(nil)
		}
		r := make([]Value, len(m))
		for i := range m {
			r[i] = m[i]
		}
		return r
	})
	reg("(*regexp.Regexp).ReplaceAllString", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return rxOf(p, a[0]).re.ReplaceAllString(p.concStr(a[1], "replace text"), p.concStr(a[2], "replacement"))
	})

	// ---- protobuf
	reg("google.golang.org/protobuf/proto.Clone", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return deepCopy(a[0], map[*Value]*Value{})
	})
	reg("google.golang.org/protobuf/proto.CloneOf", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return deepCopy(a[0], map[*Value]*Value{})
	})
	reg("google.golang.org/protobuf/proto.Equal", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return p.deepEq(a[0], a[1]) })
	vs("Same", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return p.deepEq(a[0], a[1]) })
	vs("Snapshot", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return deepCopy(a[0], map[*Value]*Value{})
	})

	// ---- randomness
	fresh := func(p *Path, l string, n int, cs string) Value {
		l = p.label(l)
		s := p.symStr(l, n, n, true)
		for _, b := range s.b {
			if p.model != nil {
				p.model.set(b, uint64(cs[0]))
			}
			if len(cs) < 256 {
				p.axiom(p.inSet(b, cs))
			}
		}
		p.input(l, "str", s, false)
		return s
	}
	std := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
	reg("github.com/dchest/uniuri.NewLen", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		n := p.concretize(a[0].(*Term), "length")
		if n == 0 {
			return ""
		}
		return fresh(p, "uniuri", int(n), std)
	})
	reg("github.com/dchest/uniuri.New", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return fresh(p, "uniuri", 16, std) })
	reg("github.com/dchest/uniuri.NewLenChars", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		n := p.concretize(a[0].(*Term), "length")
		cs := string(bytesOf(p, a[1]))
		if n == 0 {
			return ""
		}
		if len(cs) < 2 || len(cs) > 256 {
			p.panicStr("uniuri: wrong charset length for NewLenChars")
		}
		return fresh(p, "uniuri", int(n), cs)
	})
	rd := func(p *Path, buf Value) int {
		b := p.slice(buf)
		if len(b) == 0 {
			return 0
		}
		l := p.label("rand")
		s := p.symStr(l, len(b), len(b), true)
		p.input(l, "str", s, false)
		for i := range b {
			b[i] = s.b[i]
		}
		return len(b)
	}
	reg("crypto/rand.Read", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return Tuple{K(uint64(rd(p, a[0])), 64), Iface{}}
	})
	reg(zz+"models.randRead", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { rd(p, a[0]); return nil })

	// ---- ozzo-validation
	oz := "github.com/go-ozzo/ozzo-validation/v4."
	reg(oz+"ValidateStruct", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		sp := a[0].(Iface)
		if c, ok := sp.v.(*Value); ok && c == nil {
			return Iface{}
		}
		for _, f := range p.slice(a[1]) {
			fs := (*(f.(*Value))).(StructV)
			ptr := fs[0].(Iface)
			val := Iface{ptr.t.Underlying().(*types.Pointer).Elem(), p.load(ptr.v)}
			for _, r := range p.slice(fs[1]) {
				v, _ := p.invoke(fr, r.(Iface), "Validate", val)
				if v.(Iface).t != nil {
					return v
				}
			}
		}
		return Iface{}
	})
	reg("("+oz+"RequiredRule).Validate", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		r := a[0].(StructV)
		if !p.branch(r[0].(*Term)) {
			return Iface{}
		}
		if p.branch(p.isEmptyVal(a[1].(Iface))) && !p.branch(r[1].(*Term)) {
			return p.mkErr("cannot be blank")
		}
		return Iface{}
	})
	for i, name := range []string{"Min", "Max"} {
		op := uint64(1 + 2*i)
		reg(oz+name, func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			return StructV{a[0], K(op, 64), Iface{}}
		})
	}
	reg("("+oz+"ThresholdRule).Validate", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		r, v := a[0].(StructV), a[1].(Iface)
		if p.branch(p.isEmptyVal(v)) {
			return Iface{}
		}
		th := r[0].(Iface)
		x, ok1 := v.v.(*Term)
		t, ok2 := th.v.(*Term)
		if !ok1 || !ok2 || isSigned(v.t) != isSigned(th.t) || x.w != t.w {
			if ok1 && ok2 {
				return p.mkErr("cannot convert")
			}
			panic(p.unsupported("threshold rule"))
		}
		lt, le := p.c.Ult, p.c.Ule
		if isSigned(v.t) {
			lt, le = p.c.Slt, p.c.Sle
		}
		var ok *Term
		switch r[1].(*Term).k {
		case 0:
			ok = lt(t, x)
		case 1:
			ok = le(t, x)
		case 2:
			ok = lt(x, t)
		default:
			ok = le(x, t)
		}
		if p.branch(ok) {
			return Iface{}
		}
		return p.mkErr("out of range")
	})
	reg("("+oz+"StringRule).Validate", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		r, v := a[0].(StructV), a[1].(Iface)
		if p.branch(p.isEmptyVal(v)) {
			return Iface{}
		}
		if !isStr(v.v) {
			return p.mkErr("must be a string")
		}
		if p.branch(p.callValue(fr, r[0], []Value{v.v}, nil).(*Term)) {
			return Iface{}
		}
		return p.mkErr("invalid string")
	})
	reg("github.com/asaskevich/govalidator.IsURL", altFirst)
	reg(oz+"NewError", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return Iface{} })
}

func bytesOf(p *Path, v Value) []byte {
	return []byte(p.concStr(p.bytesStr(v), "bytes"))
}

func init() {
	reg(zz+"vs.Thorough", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return KB(p.w.e.thorough) })
}

// syncMap is the content of a sync.Map, kept by its address.
func (p *Path) syncMap(v Value) *MapV {
	c := v.(*Value)
	if c == nil {
		p.nilDeref()
	}
	type key struct{ c *Value }
	m, _ := p.side[key{c}].(*MapV)
	if m == nil {
		anyT := types.NewInterfaceType(nil, nil)
		m = newMap(anyT, anyT)
		p.side[key{c}] = m
	}
	return m
}
