package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	nregs  int
	idx    map[ssa.Value]int
	intr   intrinsic
	repl   *ssa.Function
	hasDef bool
	point  bool // a scheduling point as well
	sync   bool // an atomic operation on its first argument
}

type intrinsic func(p *Path, fr *frame, fn *ssa.Function, args []Value) Value

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
	next *deferred
}

type frame struct {
	p          *Path
	caller     *frame
	fn         *ssa.Function
	info       *fnInfo
	regs       []Value
	block, prv *ssa.BasicBlock
	instr      ssa.Instruction
	defers     *deferred
	result     Value
	panicking  bool
	panic      any
}

var fnInfos sync.Map // *ssa.Function -> *fnInfo

func (w *World) info(fn *ssa.Function) *fnInfo {
	if v, ok := fnInfos.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	fi.intr = intrinsics[name]
	fi.sync = strings.HasPrefix(name, "(*sync.Map).") || strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.")
	fi.point = strings.HasPrefix(name, "(*sync.Map).")
	if fi.intr == nil {
		if r, ok := w.models[name]; ok {
			fi.repl = r
		}
	}
	if fi.intr == nil && fi.repl == nil {
		w.build(fn)
	}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.nregs
		fi.nregs++
	}
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDef = true
			}
		}
	}
	v, _ := fnInfos.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

func (fr *frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return fr.p.constVal(v)
	case *ssa.Global:
		return fr.p.global(v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Builtin:
		return v
	}
	if i, ok := fr.info.idx[v]; ok {
		return fr.regs[i]
	}
	panic(fr.p.unsupported(fmt.Sprintf("no value for %T %s", v, v.Name())))
}

func (fr *frame) set(v ssa.Value, x Value) { fr.regs[fr.info.idx[v]] = x }

func (p *Path) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return KB(constant.BoolVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			w := intWidth(b)
			if i, ok := constant.Int64Val(v); ok {
				return K(uint64(i), w)
			}
			u, _ := constant.Uint64Val(v)
			return K(u, w)
		case b.Info()&types.IsFloat != 0:
			f := c.Float64()
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		}
	}
	panic(p.unsupported(fmt.Sprintf("constant %v of type %v", c, c.Type())))
}

// global returns the cell of a package variable, initialising its package on first use.
func (p *Path) global(g *ssa.Global) *Value {
	if c, ok := p.globals[g]; ok {
		p.ensureInit(g.Pkg, g)
		return c
	}
	if p.w.e.world.sharedPkg(g.Pkg) {
		p.ensureInit(g.Pkg, g)
		if c, ok := p.w.shared[g]; ok {
			return c
		}
	}
	p.ensureInit(g.Pkg, g)
	if c, ok := p.globals[g]; ok {
		return c
	}
	c := new(Value)
	*c = zero(deref(g.Type()))
	if p.w.e.world.sharedPkg(g.Pkg) {
		p.w.shared[g] = c
	} else {
		p.globals[g] = c
	}
	return c
}

func (p *Path) ensureInit(pkg *ssa.Package, g *ssa.Global) {
	if pkg == nil {
		return
	}
	st := p.pkgInit
	shared := p.w.e.world.sharedPkg(pkg)
	if shared {
		st = p.w.shInit
	}
	if st[pkg] != 0 {
		return
	}
	st[pkg] = 1
	init := pkg.Func("init")
	p.quiet++
	defer func() { p.quiet-- }()
	if init != nil && !p.w.e.world.skipInit(pkg) {
		p.w.e.world.build(init)
		save := p.frames
		p.runInit(pkg, init)
		p.frames = save
	}
	st[pkg] = 2
}

func (p *Path) runInit(pkg *ssa.Package, init *ssa.Function) {
	p.call(nil, init, nil, nil)
}

// call runs fn with args and its captured variables.
func (p *Path) call(caller *frame, fn *ssa.Function, args, env []Value) Value {
	if caller != nil && fn.Synthetic == "package initializer" {
		return nil // packages are initialised on first use
	}
	if caller != nil && strings.HasPrefix(fn.Name(), "init#") && fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), "zntr.io/solid/api/") {
		return nil // registration of message types
	}
	fi := p.w.e.world.info(fn)
	if fi.intr != nil {
		if fi.sync && len(p.threads) > 0 && len(args) > 0 {
			p.syncOp(args[0], fi.point)
		}
		return fi.intr(p, caller, fn, args)
	}
	if fi.repl != nil {
		return p.call(caller, fi.repl, args, env)
	}
	if fn.Blocks == nil {
		panic(p.unsupported("function without body: " + fn.String()))
	}
	if len(env) == 0 && len(fn.Blocks) > 1 && len(fn.Blocks) <= maxRegion {
		if r, ok := p.mergeCall(caller, fn, args); ok {
			return r
		}
	}
	if len(p.frames) > 300 {
		panic(abortPath{"limit", "call depth" + p.where()})
	}
	if !p.w.fnSeen[fn] {
		p.w.fnSeen[fn] = true
	}
	fr := &frame{p: p, caller: caller, fn: fn, info: fi, regs: make([]Value, fi.nregs)}
	for i := range fn.Params {
		fr.regs[i] = args[i]
	}
	for i := range fn.FreeVars {
		fr.regs[len(fn.Params)+i] = env[i]
	}
	fr.block = fn.Blocks[0]
	p.frames = append(p.frames, fr)
	n := len(p.frames)
	for fr.block != nil {
		p.runFrame(fr)
	}
	p.frames = p.frames[:n-1]
	return fr.result
}

func (p *Path) runFrame(fr *frame) {
	if fr.info.hasDef || fr.fn.Recover != nil {
		n := len(p.frames)
		defer func() {
			if fr.block == nil {
				return
			}
			r := recover()
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			p.frames = p.frames[:n]
			fr.panicking = true
			fr.panic = tp
			fr.runDefers()
			// recovered
			fr.block = fr.fn.Recover
			if fr.block == nil {
				fr.result = zeroResult(fr.fn)
			}
		}()
	}
	for {
		b := fr.block
	instrs:
		for _, in := range b.Instrs {
			fr.instr = in
			p.steps++
			if p.steps > p.w.e.opt.maxSteps {
				if os.Getenv("GOSYM_DEBUG") != "" {
					_, m := p.solve(True, true)
					fmt.Println("LIMIT", inputsStr(p.modelInputs(m)), p.where())
				}
				panic(abortPath{"limit", fmt.Sprintf("more than %d instructions", p.w.e.opt.maxSteps) + p.where()})
			}
			switch fr.exec(in) {
			case kNext:
			case kJump:
				break instrs
			case kReturn:
				return
			}
		}
		if fr.block == b && !jumps(b) {
			panic(p.unsupported("fell off block"))
		}
	}
}

func jumps(b *ssa.BasicBlock) bool { return len(b.Succs) > 0 }

func zeroResult(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return zero(rs.At(0).Type())
	}
	return zero(rs)
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.next
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panic)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	n := len(fr.p.frames)
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(*targetPanic)
			if !is {
				panic(r)
			}
			fr.p.frames = fr.p.frames[:n]
			fr.panicking = true
			fr.panic = tp
		}
	}()
	fr.p.callValue(fr, d.fn, d.args, d.call)
	ok = true
}

type cont int

const (
	kNext cont = iota
	kJump
	kReturn
)

func (fr *frame) exec(in ssa.Instruction) cont {
	p := fr.p
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(in, p.unop(fr, in, fr.get(in.X)))
	case *ssa.BinOp:
		fr.set(in, p.binop(in.Op, in.X.Type(), fr.get(in.X), fr.get(in.Y), in.Y.Type()))
	case *ssa.Call:
		fn, args := fr.prepareCall(&in.Call)
		fr.set(in, p.callValue(fr, fn, args, &in.Call))
	case *ssa.ChangeInterface:
		fr.set(in, fr.get(in.X))
	case *ssa.ChangeType:
		fr.set(in, fr.get(in.X))
	case *ssa.Convert:
		fr.set(in, p.convert(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.MultiConvert:
		fr.set(in, p.convert(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.SliceToArrayPointer:
		s := p.slice(fr.get(in.X))
		n := deref(in.Type()).Underlying().(*types.Array).Len()
		if int64(len(s)) < n {
			p.panicStr("slice too short for array conversion")
		}
		if s == nil {
			fr.set(in, (*Value)(nil))
		} else {
			var cell Value = ArrayV(s[:n:n])
			fr.set(in, &cell)
		}
	case *ssa.MakeInterface:
		fr.set(in, Iface{in.X.Type(), copyVal(fr.get(in.X))})
	case *ssa.Extract:
		fr.set(in, fr.get(in.Tuple).(Tuple)[in.Index])
	case *ssa.Slice:
		fr.set(in, p.sliceOp(fr, in))
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
		case 1:
			fr.result = fr.get(in.Results[0])
		default:
			r := make(Tuple, len(in.Results))
			for i, x := range in.Results {
				r[i] = fr.get(x)
			}
			fr.result = r
		}
		fr.block = nil
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		panic(&targetPanic{fr.get(in.X).(Iface), p.where()})
	case *ssa.Send:
		ch := fr.get(in.Chan).(*ChanV)
		if ch == nil || len(ch.buf) >= ch.cap {
			panic(p.unsupported("blocking channel send"))
		}
		if ch.closed {
			p.panicStr("send on closed channel")
		}
		ch.buf = append(ch.buf, copyVal(fr.get(in.X)))
	case *ssa.Store:
		addr := fr.get(in.Addr)
		if len(p.threads) > 0 {
			if c, ok := addr.(*Value); ok && c != nil {
				p.touch(c, true)
			}
		}
		p.store(addr, fr.get(in.Val))
	case *ssa.If:
		c, ok := fr.get(in.Cond).(*Term)
		if !ok {
			panic(p.unsupported(fmt.Sprintf("branch on %T", fr.get(in.Cond))))
		}
		if c.op != OpConst && p.litValue(c) < 0 && fr.merge(c) {
			return kJump
		}
		s := 1
		if p.branch(c) {
			s = 0
		}
		fr.prv, fr.block = fr.block, fr.block.Succs[s]
		fr.phis()
		return kJump
	case *ssa.Jump:
		fr.prv, fr.block = fr.block, fr.block.Succs[0]
		fr.phis()
		return kJump
	case *ssa.Defer:
		fn, args := fr.prepareCall(&in.Call)
		d := &deferred{fn: fn, args: args, call: &in.Call}
		if in.DeferStack != nil {
			if df, ok := fr.get(in.DeferStack).(*frame); ok {
				d.next = df.defers
				df.defers = d
				break
			}
		}
		d.next = fr.defers
		fr.defers = d
	case *ssa.Go:
		fn, args := fr.prepareCall(&in.Call)
		p.goStmt(fr, fn, args, &in.Call)
	case *ssa.MakeChan:
		n := p.concretize(fr.get(in.Size).(*Term), "channel size")
		fr.set(in, &ChanV{cap: int(n), et: in.Type().Underlying().(*types.Chan).Elem()})
	case *ssa.Alloc:
		// a fresh variable on every execution, also inside loops
		c := new(Value)
		*c = zero(deref(in.Type()))
		fr.set(in, c)
	case *ssa.MakeSlice:
		ln := fr.get(in.Len).(*Term)
		cp := fr.get(in.Cap).(*Term)
		ln = p.toInt64(ln, in.Len.Type())
		cp = p.toInt64(cp, in.Cap.Type())
		if p.branch(p.c.Slt(ln, K(0, 64))) || p.branch(p.c.Slt(K(1<<31, 64), ln)) {
			p.runtimePanic("makeslice: len out of range")
		}
		if p.branch(p.c.Slt(cp, ln)) || p.branch(p.c.Slt(K(1<<31, 64), cp)) {
			p.runtimePanic("makeslice: cap out of range")
		}
		n := p.concretize(ln, "make length")
		var m uint64
		if cp2 := p.known(cp); cp2.op == OpConst {
			m = cp2.k
		} else {
			m = p.concretize(cp, "make capacity")
		}
		if m > 1<<22 {
			panic(p.unsupported("huge make"))
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := make([]Value, m)
		z := zero(et)
		for i := range s {
			switch z.(type) {
			case StructV, ArrayV:
				s[i] = zero(et)
			default:
				s[i] = z
			}
		}
		fr.set(in, s[:n])
	case *ssa.MakeMap:
		m := in.Type().Underlying().(*types.Map)
		fr.set(in, newMap(m.Key(), m.Elem()))
	case *ssa.Range:
		fr.set(in, p.rangeIter(fr.get(in.X)))
	case *ssa.Next:
		fr.set(in, fr.get(in.Iter).(*iter).next(p, in))
	case *ssa.FieldAddr:
		x := fr.get(in.X)
		c, ok := x.(*Value)
		if !ok {
			if n, isNat := x.(*Native); isNat && n != nil {
				panic(p.unsupported("field of native " + n.kind))
			}
			if e, isE := x.(*ElemPtr); isE {
				p.concElem(e)
				c = &e.arr[e.idx.k]
			} else {
				panic(p.unsupported(fmt.Sprintf("field address of %T", x)))
			}
		}
		if c == nil {
			p.nilDeref()
		}
		st, ok := (*c).(StructV)
		if !ok {
			panic(p.unsupported(fmt.Sprintf("field address in %T (%s)", *c, in.X.Type())))
		}
		fr.set(in, &st[in.Field])
	case *ssa.Field:
		fr.set(in, fr.p.force(fr.get(in.X).(StructV)[in.Field]))
	case *ssa.IndexAddr:
		fr.set(in, p.indexAddr(fr, in))
	case *ssa.Index:
		fr.set(in, p.index(fr, in))
	case *ssa.Lookup:
		fr.set(in, p.lookup(fr, in))
	case *ssa.MapUpdate:
		m := fr.get(in.Map).(*MapV)
		p.touch(m, true)
		p.mapSet(m, fr.get(in.Key), fr.get(in.Value))
	case *ssa.TypeAssert:
		fr.set(in, p.typeAssert(in, fr.get(in.X).(Iface)))
	case *ssa.MakeClosure:
		env := make([]Value, len(in.Bindings))
		for i, b := range in.Bindings {
			env[i] = fr.get(b)
		}
		fr.set(in, &Closure{fn: in.Fn.(*ssa.Function), env: env})
	case *ssa.Phi:
		// done by phis()
	case *ssa.Select:
		fr.set(in, p.selectOp(fr, in))
	default:
		panic(p.unsupported(fmt.Sprintf("instruction %T", in)))
	}
	return kNext
}

func (fr *frame) phis() {
	b := fr.block
	var k int
	for i, pr := range b.Preds {
		if pr == fr.prv {
			k = i
			break
		}
	}
	var vals [8]Value
	var ins [8]*ssa.Phi
	n := 0
	var more []func()
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := fr.get(ph.Edges[k])
		if n < 8 {
			vals[n], ins[n] = v, ph
			n++
		} else {
			more = append(more, func() { fr.set(ph, v) })
		}
	}
	for i := 0; i < n; i++ {
		fr.set(ins[i], vals[i])
	}
	for _, f := range more {
		f()
	}
}

func (fr *frame) prepareCall(c *ssa.CallCommon) (Value, []Value) {
	p := fr.p
	v := fr.get(c.Value)
	var args []Value
	var fn Value
	if c.Method == nil {
		fn = v
	} else {
		recv := v.(Iface)
		if recv.t == nil {
			p.nilDeref()
		}
		f := p.w.e.world.method(recv.t, c.Method)
		if f == nil {
			panic(p.unsupported("no method " + c.Method.Name() + " on " + recv.t.String()))
		}
		fn = &Closure{fn: f}
		args = append(args, recv.v)
	}
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return fn, args
}

// copyArg: struct arguments are copied lazily by stores; SSA values are immutable here.

func (p *Path) callValue(fr *frame, fn Value, args []Value, cc *ssa.CallCommon) Value {
	switch f := fn.(type) {
	case *Closure:
		if f == nil {
			p.nilDeref()
		}
		if f.nat != nil {
			return f.nat(p, args)
		}
		return p.call(fr, f.fn, args, f.env)
	case *ssa.Builtin:
		return p.builtin(fr, f, args, cc)
	}
	panic(p.unsupported(fmt.Sprintf("call of %T", fn)))
}

func (p *Path) goStmt(fr *frame, fn Value, args []Value, cc *ssa.CallCommon) {
	// the code under test may start a goroutine; it runs as late as it may
	if f := fr.fn; f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "zntr.io/solid") {
		p.started = append(p.started, func() { p.callValue(fr, fn, args, cc) })
	}
}

// runStarted runs the goroutines started so far.
func (p *Path) runStarted() {
	for len(p.started) > 0 {
		f := p.started[0]
		p.started = p.started[1:]
		f()
	}
}

// ---- panics of the interpreted program

func (p *Path) runtimePanic(msg string) {
	t := p.w.e.world.runtimeErr
	panic(&targetPanic{Iface{t, "runtime error: " + msg}, p.where()})
}
func (p *Path) nilDeref() {
	p.runtimePanic("invalid memory address or nil pointer dereference")
}
func (p *Path) panicStr(msg string) { p.runtimePanic(msg) }

// ---- memory

func (p *Path) load(addr Value) Value {
	switch a := addr.(type) {
	case *Value:
		if a == nil {
			p.nilDeref()
		}
		return copyVal(p.force(*a))
	case *ElemPtr:
		i := p.known(a.idx)
		if i.op == OpConst {
			return copyVal(p.force(a.arr[i.k]))
		}
		return p.mux(terms(a.arr), i, 0)
	case *Native:
		if a == nil {
			p.nilDeref()
		}
		panic(p.unsupported("load from native " + a.kind))
	case UnsafeP:
		return p.load(a.v)
	}
	panic(p.unsupported(fmt.Sprintf("load from %T", addr)))
}

func (p *Path) concElem(e *ElemPtr) {
	if e.idx.op != OpConst {
		e.idx = K(p.concretize(e.idx, "index"), e.idx.w)
	}
}

func (p *Path) store(addr, v Value) {
	switch a := addr.(type) {
	case *Value:
		if a == nil {
			p.nilDeref()
		}
		storeVal(a, v)
		return
	case *ElemPtr:
		i := p.known(a.idx)
		if i.op == OpConst {
			storeVal(&a.arr[i.k], v)
			return
		}
		nv, ok := v.(*Term)
		if !ok {
			p.concElem(a)
			storeVal(&a.arr[a.idx.k], v)
			return
		}
		for k := range a.arr {
			a.arr[k] = p.c.Ite(p.c.Eq(i, K(uint64(k), i.w)), nv, a.arr[k].(*Term))
		}
		return
	case UnsafeP:
		p.store(a.v, v)
		return
	}
	panic(p.unsupported(fmt.Sprintf("store to %T", addr)))
}

// slice forces a slice value to a Go slice of cells.
func (p *Path) slice(v Value) []Value {
	switch s := v.(type) {
	case []Value:
		return s
	case *LazyBytes:
		if s == nil {
			return nil
		}
		if s.arr == nil {
			var b []*Term
			if s.s.alts != nil {
				b = constBytes(p.pickAlt(s.s))
			} else {
				b = p.fixLen(s.s)
			}
			s.arr = make([]Value, len(b))
			for i, t := range b {
				s.arr[i] = t
			}
		}
		return s.arr
	case nil:
		return nil
	}
	panic(p.unsupported(fmt.Sprintf("slice expected, got %T", v)))
}

// bytesStr reads a byte slice as a string value.
func (p *Path) bytesStr(v Value) Value {
	switch s := v.(type) {
	case *LazyBytes:
		if s == nil {
			return ""
		}
		if s.arr == nil {
			return unlazy(s.s)
		}
		return mkFixed(terms(s.arr))
	case []Value:
		return mkFixed(terms(s))
	case string, *SymStr:
		return v
	case nil:
		return ""
	}
	panic(p.unsupported(fmt.Sprintf("bytes expected, got %T", v)))
}

func unlazy(s *SymStr) Value {
	if s.alts == nil {
		return mkStr(s.n, s.b)
	}
	return s
}

// strBytes makes a byte slice of a string value.
func (p *Path) strBytes(v Value) Value {
	switch s := v.(type) {
	case string:
		r := make([]Value, len(s))
		for i := range r {
			r[i] = smallConst[1][s[i]]
		}
		return r
	case *SymStr:
		if s.alts == nil {
			if n := p.known(s.n); n.op == OpConst {
				return values(s.b[:n.k])
			}
		}
		return &LazyBytes{s: s}
	}
	panic(p.unsupported(fmt.Sprintf("bytes of %T", v)))
}

func (p *Path) sliceLen(v Value) *Term {
	switch s := v.(type) {
	case []Value:
		return K(uint64(len(s)), 64)
	case *LazyBytes:
		if s == nil {
			return K(0, 64)
		}
		if s.arr != nil {
			return K(uint64(len(s.arr)), 64)
		}
		return p.strLen(s.s)
	}
	panic(p.unsupported(fmt.Sprintf("len of %T", v)))
}

func (p *Path) toInt64(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if isSigned(ty) {
		return p.c.Sext(t, 64)
	}
	return p.c.Zext(t, 64)
}

// checkIndex panics (in the program) when i is outside [0,n).
func (p *Path) checkIndex(i, n *Term) {
	if !p.branch(p.c.Ult(i, n)) {
		p.runtimePanic("index out of range")
	}
}

func (p *Path) indexAddr(fr *frame, in *ssa.IndexAddr) Value {
	x := fr.get(in.X)
	i := p.known(p.toInt64(fr.get(in.Index).(*Term), in.Index.Type()))
	var arr []Value
	switch x := x.(type) {
	case []Value, *LazyBytes:
		if lb, ok := x.(*LazyBytes); ok && lb != nil && lb.arr == nil {
			p.checkIndex(i, p.sliceLen(x))
		}
		arr = p.slice(x)
	case *Value:
		if x == nil {
			p.nilDeref()
		}
		a, ok := (*x).(ArrayV)
		if !ok {
			panic(p.unsupported(fmt.Sprintf("index address in %T", *x)))
		}
		arr = a
	default:
		panic(p.unsupported(fmt.Sprintf("index address of %T", x)))
	}
	if i.op == OpConst {
		if i.k >= uint64(len(arr)) {
			p.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.k), len(arr)))
		}
		return &arr[i.k]
	}
	p.checkIndex(i, K(uint64(len(arr)), 64))
	if len(arr) == 1 {
		return &arr[0]
	}
	if _, ok := arr[0].(*Term); ok && len(arr) <= 1024 {
		return &ElemPtr{arr, i}
	}
	k := p.concretize(i, "index")
	return &arr[k]
}

func (p *Path) index(fr *frame, in *ssa.Index) Value {
	x := fr.get(in.X)
	i := p.known(p.toInt64(fr.get(in.Index).(*Term), in.Index.Type()))
	switch x := x.(type) {
	case string, *SymStr:
		p.checkIndex(i, p.strLen(x))
		return p.strAt(x, i)
	case ArrayV:
		p.checkIndex(i, K(uint64(len(x)), 64))
		if i.op == OpConst {
			return x[i.k]
		}
		if _, ok := x[0].(*Term); ok {
			return p.mux(terms(x), i, 0)
		}
		return x[p.concretize(i, "index")]
	}
	panic(p.unsupported(fmt.Sprintf("index of %T", x)))
}

func (p *Path) lookup(fr *frame, in *ssa.Lookup) Value {
	x := fr.get(in.X)
	switch m := x.(type) {
	case *MapV:
		p.touch(m, false)
		e := p.mapFind(m, fr.get(in.Index))
		var v Value
		ok := e != nil
		if ok {
			v = copyVal(e.v)
		} else {
			v = zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return Tuple{v, KB(ok)}
		}
		return v
	case string, *SymStr:
		i := p.known(p.toInt64(fr.get(in.Index).(*Term), in.Index.Type()))
		p.checkIndex(i, p.strLen(m))
		return p.strAt(m, i)
	}
	panic(p.unsupported(fmt.Sprintf("lookup in %T", x)))
}

func (p *Path) sliceOp(fr *frame, in *ssa.Slice) Value {
	x := fr.get(in.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return p.known(p.toInt64(fr.get(v).(*Term), v.Type()))
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	if lo == nil {
		lo = K(0, 64)
	}
	switch s := x.(type) {
	case string, *SymStr:
		n := p.strLen(s)
		if hi == nil {
			hi = n
		} else if !p.branch(p.c.Ule(hi, n)) {
			p.runtimePanic("slice bounds out of range")
		}
		if !p.branch(p.c.Ule(lo, hi)) {
			p.runtimePanic("slice bounds out of range")
		}
		return p.strSlice(s, lo, hi)
	case *LazyBytes:
		if s != nil && s.arr == nil && lo.op == OpConst && lo.k == 0 && (hi == nil || hi == p.strLen(s.s)) && mx == nil {
			return s
		}
	}
	var arr []Value
	switch s := x.(type) {
	case []Value, *LazyBytes:
		arr = p.slice(s)
	case *Value:
		if s == nil {
			p.nilDeref()
		}
		arr = []Value((*s).(ArrayV))
	default:
		panic(p.unsupported(fmt.Sprintf("slice of %T", x)))
	}
	n, c := K(uint64(len(arr)), 64), K(uint64(cap(arr)), 64)
	if hi == nil {
		hi = n
	}
	if mx == nil {
		mx = c
	} else if !p.branch(p.c.Ule(mx, c)) {
		p.runtimePanic("slice bounds out of range")
	}
	if !p.branch(p.c.Ule(hi, mx)) {
		p.runtimePanic("slice bounds out of range")
	}
	if !p.branch(p.c.Ule(lo, hi)) {
		p.runtimePanic("slice bounds out of range")
	}
	l, h, m := p.concretize(lo, "slice bound"), p.concretize(hi, "slice bound"), p.concretize(mx, "slice bound")
	if arr == nil {
		return []Value(nil)
	}
	return arr[l:h:m]
}

// ---- operators

func (p *Path) unop(fr *frame, in *ssa.UnOp, x Value) Value {
	switch in.Op {
	case token.MUL:
		if len(p.threads) > 0 {
			if c, ok := x.(*Value); ok && c != nil {
				p.touch(c, false)
			}
		}
		return p.load(x)
	case token.NOT:
		return p.c.Not(x.(*Term))
	case token.SUB:
		switch x := x.(type) {
		case *Term:
			return p.c.Bin(OpSub, K(0, x.w), x)
		case float64:
			return -x
		case complex128:
			return -x
		}
	case token.XOR:
		return p.c.BNot(x.(*Term))
	case token.ARROW:
		ch := x.(*ChanV)
		if ch != nil && len(ch.buf) == 0 && !ch.closed {
			p.runStarted()
		}
		if ch == nil || len(ch.buf) == 0 && !ch.closed {
			panic(p.unsupported("blocking channel receive"))
		}
		var v Value
		ok := len(ch.buf) > 0
		if ok {
			v = ch.buf[0]
			ch.buf = ch.buf[1:]
		} else {
			v = zero(ch.et)
		}
		if in.CommaOk {
			return Tuple{v, KB(ok)}
		}
		return v
	}
	panic(p.unsupported(fmt.Sprintf("unop %v on %T", in.Op, x)))
}

func (p *Path) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	switch op {
	case token.EQL:
		return p.eqOp(t, x, y)
	case token.NEQ:
		return p.c.Not(p.eqOp(t, x, y))
	}
	switch xv := x.(type) {
	case *Term:
		yv := y.(*Term)
		if xv.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return p.c.And(xv, yv)
			case token.OR, token.LOR:
				return p.c.Or(xv, yv)
			}
		}
		sg := isSigned(t)
		c := p.c
		xv, yv = p.known(xv), p.known(yv)
		switch op {
		case token.ADD:
			return c.Bin(OpAdd, xv, yv)
		case token.SUB:
			return c.Bin(OpSub, xv, yv)
		case token.MUL:
			return c.Bin(OpMul, xv, yv)
		case token.QUO, token.REM:
			if p.branch(c.Eq(yv, K(0, yv.w))) {
				p.runtimePanic("integer divide by zero")
			}
			o := map[bool]map[token.Token]Op{true: {token.QUO: OpSDiv, token.REM: OpSRem}, false: {token.QUO: OpUDiv, token.REM: OpURem}}[sg][op]
			return c.Bin(o, xv, yv)
		case token.AND:
			return c.Bin(OpBAnd, xv, yv)
		case token.OR:
			return c.Bin(OpBOr, xv, yv)
		case token.XOR:
			return c.Bin(OpBXor, xv, yv)
		case token.AND_NOT:
			return c.Bin(OpBAnd, xv, c.BNot(yv))
		case token.SHL, token.SHR:
			if isSigned(yt) && !c.nonneg(yv) {
				if p.branch(c.Slt(yv, K(0, yv.w))) {
					p.runtimePanic("negative shift amount")
				}
			}
			o := OpShl
			if op == token.SHR {
				o = OpLshr
				if sg {
					o = OpAshr
				}
			}
			if yv.w < xv.w {
				return c.Bin(o, xv, c.Zext(yv, xv.w))
			}
			if yv.w == xv.w {
				return c.Bin(o, xv, yv)
			}
			small := c.Ult(yv, K(uint64(xv.w), yv.w))
			in := c.Bin(o, xv, c.Extract(yv, 0, xv.w))
			out := K(0, xv.w)
			if o == OpAshr {
				out = c.Bin(OpAshr, xv, K(uint64(xv.w-1), xv.w))
			}
			return c.Ite(small, in, out)
		case token.LSS:
			if sg {
				return c.Slt(xv, yv)
			}
			return c.Ult(xv, yv)
		case token.LEQ:
			if sg {
				return c.Sle(xv, yv)
			}
			return c.Ule(xv, yv)
		case token.GTR:
			if sg {
				return c.Slt(yv, xv)
			}
			return c.Ult(yv, xv)
		case token.GEQ:
			if sg {
				return c.Sle(yv, xv)
			}
			return c.Ule(yv, xv)
		}
	case float64:
		yv := y.(float64)
		f32 := false
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			f32 = true
		}
		r := func(v float64) Value {
			if f32 {
				return float64(float32(v))
			}
			return v
		}
		switch op {
		case token.ADD:
			return r(xv + yv)
		case token.SUB:
			return r(xv - yv)
		case token.MUL:
			return r(xv * yv)
		case token.QUO:
			return r(xv / yv)
		case token.LSS:
			return KB(xv < yv)
		case token.LEQ:
			return KB(xv <= yv)
		case token.GTR:
			return KB(xv > yv)
		case token.GEQ:
			return KB(xv >= yv)
		}
	case string, *SymStr:
		switch op {
		case token.ADD:
			return p.strConcat(x, y)
		case token.LSS:
			return p.strLess(x, y)
		case token.GTR:
			return p.strLess(y, x)
		case token.LEQ:
			return p.c.Not(p.strLess(y, x))
		case token.GEQ:
			return p.c.Not(p.strLess(x, y))
		}
	}
	panic(p.unsupported(fmt.Sprintf("binop %v on %T, %T", op, x, y)))
}

func (p *Path) eqOp(t types.Type, x, y Value) *Term {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Signature:
		return KB(isNilVal(x) && isNilVal(y))
	}
	return p.equals(t, x, y)
}

// convert implements conversions between basic types, strings and slices.
func (p *Path) convert(dst, src types.Type, x Value) Value {
	ud, us := dst.Underlying(), src.Underlying()
	if tp, ok := ud.(*types.TypeParam); ok {
		_ = tp
		panic(p.unsupported("conversion to type parameter"))
	}
	switch us := us.(type) {
	case *types.Pointer:
		if b, ok := ud.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return UnsafeP{x}
		}
		return x
	case *types.Slice:
		switch d := ud.(type) {
		case *types.Basic: // string(bytes) or string(runes)
			if e, ok := us.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Byte {
				return p.bytesStr(x)
			}
			var r Value = ""
			for _, v := range p.slice(x) {
				r = p.strConcat(r, p.runeStr(v.(*Term)))
			}
			return r
		case *types.Array:
			s := p.slice(x)
			if int64(len(s)) < d.Len() {
				p.runtimePanic("slice to array conversion")
			}
			a := make(ArrayV, d.Len())
			copy(a, s)
			return copyVal(a)
		}
		return x
	case *types.Basic:
		if us.Kind() == types.UnsafePointer {
			u := x.(UnsafeP)
			if _, ok := ud.(*types.Pointer); ok {
				if u.v == nil {
					return (*Value)(nil)
				}
				return u.v
			}
			if b, ok := ud.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
				return x
			}
			panic(p.unsupported("unsafe.Pointer to integer"))
		}
		if us.Info()&types.IsString != 0 {
			switch d := ud.(type) {
			case *types.Slice:
				if e := d.Elem().Underlying().(*types.Basic); e.Kind() == types.Byte {
					return p.strBytes(x)
				}
				// []rune
				var out []Value
				s := p.fixStr(x)
				pos := 0
				for {
					r, w := p.decodeRune(s, pos)
					if w == 0 {
						break
					}
					out = append(out, r)
					pos += w
				}
				if out == nil {
					out = []Value{}
				}
				return out
			case *types.Basic:
				return x
			}
		}
		db, ok := ud.(*types.Basic)
		if !ok {
			break
		}
		switch v := x.(type) {
		case *Term:
			switch {
			case db.Info()&types.IsString != 0:
				return p.runeStr(p.toInt64(v, src))
			case db.Info()&types.IsInteger != 0 && db.Kind() != types.UnsafePointer:
				w := intWidth(db)
				switch {
				case v.w == w:
					return v
				case v.w > w:
					return p.c.Extract(v, 0, w)
				case isSigned(src):
					return p.c.Sext(v, w)
				default:
					return p.c.Zext(v, w)
				}
			case db.Info()&types.IsFloat != 0:
				k := p.concretize(v, "float operand")
				var f float64
				if isSigned(src) {
					f = float64(sext64(k, v.w))
				} else {
					f = float64(k)
				}
				if db.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return f
			case db.Kind() == types.UnsafePointer:
				panic(p.unsupported("integer to unsafe.Pointer"))
			case db.Info()&types.IsBoolean != 0:
				return v
			}
		case float64:
			switch {
			case db.Info()&types.IsFloat != 0:
				if db.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			case db.Info()&types.IsInteger != 0:
				w := intWidth(db)
				if db.Info()&types.IsUnsigned != 0 {
					return K(uint64(v), w)
				}
				return K(uint64(int64(v)), w)
			}
		case complex128:
			return v
		}
	}
	panic(p.unsupported(fmt.Sprintf("conversion %v <- %v (%T)", dst, src, x)))
}

// runeStr is string(rune).
func (p *Path) runeStr(r *Term) Value {
	r = p.known(r)
	if r.op == OpConst {
		if r.w == 64 && (int64(r.k) > math.MaxInt32 || int64(r.k) < 0) {
			return "\uFFFD"
		}
		return string(rune(int32(r.k)))
	}
	if p.branch(p.c.Ult(r, K(0x80, r.w))) {
		return mkFixed([]*Term{p.c.Extract(r, 0, 8)})
	}
	k := p.concretize(r, "rune")
	return string(rune(int32(k)))
}

// decodeRune decodes the rune at pos of a string of fixed length.
func (p *Path) decodeRune(s Value, pos int) (*Term, int) {
	if cs, ok := s.(string); ok {
		if pos >= len(cs) {
			return nil, 0
		}
		r, w := utf8.DecodeRuneInString(cs[pos:])
		return K(uint64(uint32(r)), 32), w
	}
	b := s.(*SymStr).b
	n := int(s.(*SymStr).n.k)
	if pos >= n {
		return nil, 0
	}
	c := p.c
	b0 := b[pos]
	if p.branch(c.Ult(b0, K(0x80, 8))) {
		return c.Zext(b0, 32), 1
	}
	bad := func() (*Term, int) { return K(utf8.RuneError, 32), 1 }
	in := func(t *Term, lo, hi uint64) bool {
		return p.branch(c.And(c.Ule(K(lo, 8), t), c.Ule(t, K(hi, 8))))
	}
	low6 := func(t *Term) *Term { return c.Zext(c.Bin(OpBAnd, t, K(0x3f, 8)), 32) }
	sh := func(t *Term, k uint64) *Term { return c.Bin(OpShl, t, K(k, 32)) }
	or := func(a, b *Term) *Term { return c.Bin(OpBOr, a, b) }
	at := func(i int) *Term {
		if pos+i < n {
			return b[pos+i]
		}
		return nil
	}
	if in(b0, 0xC2, 0xDF) {
		b1 := at(1)
		if b1 == nil || !in(b1, 0x80, 0xBF) {
			return bad()
		}
		return or(sh(c.Zext(c.Bin(OpBAnd, b0, K(0x1f, 8)), 32), 6), low6(b1)), 2
	}
	if in(b0, 0xE0, 0xEF) {
		b1, b2 := at(1), at(2)
		if b1 == nil || b2 == nil {
			return bad()
		}
		lo, hi := uint64(0x80), uint64(0xBF)
		if p.branch(c.Eq(b0, K(0xE0, 8))) {
			lo = 0xA0
		} else if p.branch(c.Eq(b0, K(0xED, 8))) {
			hi = 0x9F
		}
		if !in(b1, lo, hi) || !in(b2, 0x80, 0xBF) {
			return bad()
		}
		return or(or(sh(c.Zext(c.Bin(OpBAnd, b0, K(0x0f, 8)), 32), 12), sh(low6(b1), 6)), low6(b2)), 3
	}
	if in(b0, 0xF0, 0xF4) {
		b1, b2, b3 := at(1), at(2), at(3)
		if b1 == nil || b2 == nil || b3 == nil {
			return bad()
		}
		lo, hi := uint64(0x80), uint64(0xBF)
		if p.branch(c.Eq(b0, K(0xF0, 8))) {
			lo = 0x90
		} else if p.branch(c.Eq(b0, K(0xF4, 8))) {
			hi = 0x8F
		}
		if !in(b1, lo, hi) || !in(b2, 0x80, 0xBF) || !in(b3, 0x80, 0xBF) {
			return bad()
		}
		return or(or(sh(c.Zext(c.Bin(OpBAnd, b0, K(7, 8)), 32), 18), sh(low6(b1), 12)), or(sh(low6(b2), 6), low6(b3))), 4
	}
	return bad()
}

// ---- iteration

type iter struct {
	m   *MapV
	i   int
	s   Value
	pos int
	nat func(p *Path) Value
}

func (p *Path) rangeIter(x Value) *iter {
	switch x := x.(type) {
	case *MapV:
		if x == nil {
			return &iter{m: newMap(nil, nil)}
		}
		p.touch(x, false)
		// iterate over a snapshot of the entries, skipping the ones deleted meanwhile
		snap := &MapV{entries: append([]*mapEntry(nil), x.entries...), kt: x.kt, vt: x.vt}
		return &iter{m: snap}
	case string:
		return &iter{s: x}
	case *SymStr:
		return &iter{s: p.fixStr(x)}
	}
	panic(p.unsupported(fmt.Sprintf("range over %T", x)))
}

func (it *iter) next(p *Path, in *ssa.Next) Value {
	if it.m != nil {
		for it.i < len(it.m.entries) && it.m.entries[it.i].dead {
			it.i++
		}
		if it.i >= len(it.m.entries) {
			return Tuple{False, nil, nil}
		}
		e := it.m.entries[it.i]
		it.i++
		return Tuple{True, copyVal(e.k), copyVal(e.v)}
	}
	r, w := p.decodeRune(it.s, it.pos)
	if w == 0 {
		return Tuple{False, K(0, 64), K(0, 32)}
	}
	pos := it.pos
	it.pos += w
	return Tuple{True, K(uint64(pos), 64), r}
}

func (p *Path) selectOp(fr *frame, in *ssa.Select) Value {
	n := 2
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			n++
		}
	}
	res := make(Tuple, n)
	res[1] = False
	k := 2
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			res[k] = zero(s.Chan.Type().Underlying().(*types.Chan).Elem())
			k++
		}
	}
	k = 2
	for i, s := range in.States {
		ch, _ := fr.get(s.Chan).(*ChanV)
		if s.Dir == types.RecvOnly {
			if ch != nil && (len(ch.buf) > 0 || ch.closed) {
				res[0] = K(uint64(i), 64)
				if len(ch.buf) > 0 {
					res[k] = ch.buf[0]
					ch.buf = ch.buf[1:]
					res[1] = True
				}
				return res
			}
			k++
		} else if ch != nil && len(ch.buf) < ch.cap {
			ch.buf = append(ch.buf, copyVal(fr.get(s.Send)))
			res[0] = K(uint64(i), 64)
			return res
		}
	}
	if !in.Blocking {
		res[0] = K(^uint64(0), 64)
		return res
	}
	panic(p.unsupported("blocking select"))
}

// ---- interfaces

func (p *Path) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if it, is := in.AssertedType.Underlying().(*types.Interface); is {
		if x.t != nil && p.w.e.world.implements(x.t, it) {
			ok, v = true, x
		}
	} else if x.t != nil && types.Identical(x.t, in.AssertedType) {
		ok, v = true, copyVal(x.v)
	}
	if in.CommaOk {
		if !ok {
			v = zero(in.AssertedType)
		}
		return Tuple{v, KB(ok)}
	}
	if !ok {
		if x.t == nil {
			p.runtimePanic("interface conversion: interface is nil, not " + in.AssertedType.String())
		}
		p.runtimePanic("interface conversion: interface is " + x.t.String() + ", not " + in.AssertedType.String())
	}
	return v
}

// ---- builtins

func (p *Path) builtin(fr *frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		// append([]byte, string...)
		if isStr(args[1]) || isLazy(args[1]) || isLazy(args[0]) {
			var add Value
			if isStr(args[1]) {
				add = args[1]
			} else {
				add = p.bytesStr(args[1])
			}
			s, isC := add.(string)
			if !isC || isLazy(args[0]) {
				if ss, ok := add.(*SymStr); ok && ss.alts == nil && p.known(ss.n).op == OpConst && !isLazy(args[0]) {
					return append(p.slice(args[0]), values(ss.b[:p.known(ss.n).k])...)
				}
				r := p.strConcat(p.bytesStr(args[0]), add)
				return p.strBytes(r)
			}
			return append(p.slice(args[0]), p.strBytes(s).([]Value)...)
		}
		dst, src := p.slice(args[0]), p.slice(args[1])
		if len(src) > 0 {
			switch src[0].(type) {
			case StructV, ArrayV:
				cp := make([]Value, len(src))
				for i := range src {
					cp[i] = copyVal(src[i])
				}
				src = cp
			}
		}
		if src == nil && dst == nil {
			return dst
		}
		// elements beyond len may be aliased aggregates: store in place
		if n := len(dst) + len(src); n <= cap(dst) {
			full := dst[:n]
			for i, v := range src {
				full[len(dst)+i] = v
			}
			return full
		}
		return growAppend(dst, src)
	case "copy":
		dst := p.slice(args[0])
		if isStr(args[1]) {
			s := p.fixLen(args[1])
			n := min(len(dst), len(s))
			for i := 0; i < n; i++ {
				dst[i] = s[i]
			}
			return K(uint64(n), 64)
		}
		src := p.slice(args[1])
		n := min(len(dst), len(src))
		if n == 0 {
			return K(0, 64)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		copy(dst, tmp)
		return K(uint64(n), 64)
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return p.strLen(x)
		case []Value, *LazyBytes:
			return p.sliceLen(x)
		case *MapV:
			if x == nil {
				return K(0, 64)
			}
			return K(uint64(x.live), 64)
		case *ChanV:
			if x == nil {
				return K(0, 64)
			}
			return K(uint64(len(x.buf)), 64)
		case ArrayV:
			return K(uint64(len(x)), 64)
		case *Value:
			return K(uint64(len((*x).(ArrayV))), 64)
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return K(uint64(cap(x)), 64)
		case *LazyBytes:
			return K(uint64(cap(p.slice(x))), 64)
		case ArrayV:
			return K(uint64(len(x)), 64)
		case *Value:
			return K(uint64(len((*x).(ArrayV))), 64)
		case *ChanV:
			if x == nil {
				return K(0, 64)
			}
			return K(uint64(x.cap), 64)
		}
	case "delete":
		p.touch(args[0].(*MapV), true)
		p.mapDelete(args[0].(*MapV), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range x.entries {
					e.dead = true
				}
				x.entries, x.index, x.sym, x.live = nil, map[string]*mapEntry{}, 0, 0
			}
			return nil
		case []Value:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				x[i] = zero(et)
			}
			return nil
		}
	case "min", "max":
		r := args[0]
		t := cc.Args[0].Type()
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *Term:
				y := a.(*Term)
				var lt *Term
				if isSigned(t) {
					lt = p.c.Slt(x, y)
				} else {
					lt = p.c.Ult(x, y)
				}
				if b.Name() == "min" {
					r = p.c.Ite(lt, x, y)
				} else {
					r = p.c.Ite(lt, y, x)
				}
			case float64:
				if b.Name() == "min" {
					r = math.Min(x, a.(float64))
				} else {
					r = math.Max(x, a.(float64))
				}
			default:
				lt := p.branch(p.strLess(r, a))
				if lt != (b.Name() == "min") {
					r = a
				}
			}
		}
		return r
	case "print", "println":
		return nil
	case "panic":
		panic(&targetPanic{args[0].(Iface), p.where()})
	case "recover":
		return p.recoverOp(fr)
	case "close":
		ch := args[0].(*ChanV)
		if ch == nil || ch.closed {
			p.panicStr("close of nil or closed channel")
		}
		ch.closed = true
		return nil
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "ssa:wrapnilchk":
		if isNilVal(args[0]) {
			p.nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return fr
	case "String": // unsafe.String
		n := p.concretize(p.known(args[1].(*Term)), "unsafe length")
		if n == 0 {
			return ""
		}
		if sp, ok := args[0].(*Native); ok && sp.kind == "slicedata" {
			return mkFixed(terms(sp.v.([]Value)[:n]))
		}
		if sp, ok := args[0].(*Native); ok && sp.kind == "strdata" {
			return p.strSlice(sp.v, K(0, 64), K(n, 64))
		}
	case "StringData":
		return &Native{"strdata", args[0]}
	case "SliceData":
		s := p.slice(args[0])
		if s == nil {
			return (*Native)(nil)
		}
		return &Native{"slicedata", s}
	case "Slice":
		n := p.concretize(p.known(args[1].(*Term)), "unsafe length")
		if sp, ok := args[0].(*Native); ok && sp != nil {
			switch sp.kind {
			case "slicedata":
				return sp.v.([]Value)[:n]
			case "strdata":
				return p.strBytes(p.strSlice(sp.v, K(0, 64), K(n, 64)))
			}
		}
		if n == 0 {
			return []Value{}
		}
	}
	panic(p.unsupported(fmt.Sprintf("builtin %s on %T", b.Name(), first(args))))
}

func first(a []Value) Value {
	if len(a) == 0 {
		return nil
	}
	return a[0]
}

func growAppend(dst, src []Value) []Value {
	n := len(dst) + len(src)
	c := max(2*cap(dst), n)
	r := make([]Value, n, c)
	copy(r, dst)
	copy(r[len(dst):], src)
	// the spare capacity is never observable as nil: fill with a zero of the same shape
	if n > 0 {
		z := zeroLike(r[0])
		for i := n; i < c; i++ {
			r[:c][i] = z
		}
	}
	return r
}

func zeroLike(v Value) Value {
	switch v := v.(type) {
	case *Term:
		return K(0, v.w)
	case string, *SymStr:
		return ""
	case float64:
		return float64(0)
	case *Value:
		return (*Value)(nil)
	case Iface:
		return Iface{}
	case []Value, *LazyBytes:
		return []Value(nil)
	case *MapV:
		return (*MapV)(nil)
	case *Closure:
		return (*Closure)(nil)
	}
	return v
}

func isStr(v Value) bool {
	switch v.(type) {
	case string, *SymStr:
		return true
	}
	return false
}
func isLazy(v Value) bool {
	l, ok := v.(*LazyBytes)
	return ok && l != nil && l.arr == nil
}

func (p *Path) recoverOp(fr *frame) Value {
	// recover() is called by a deferred function: its caller is the panicking frame
	c := fr.caller
	if c != nil && c.panicking {
		c.panicking = false
		tp := c.panic.(*targetPanic)
		c.panic = nil
		if tp.v.t == nil {
			return Iface{}
		}
		return tp.v
	}
	return Iface{}
}

func shortFn(s string) string { return s[strings.LastIndex(s, "/")+1:] }
