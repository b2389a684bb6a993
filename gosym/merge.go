package main

import (
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Branch merging: an acyclic region of side-effect-free blocks behind a symbolic branch is
// evaluated once under guards instead of once per path.

type region struct {
	blocks []*ssa.BasicBlock // topological order, without the entry
	in     map[*ssa.BasicBlock]bool
}

type specAbort struct{}

var (
	regions  sync.Map // *ssa.BasicBlock -> *region or (*region)(nil)
	noRegion = (*region)(nil)
)

const maxRegion = 24

var pureCalls = map[string]bool{
	zz + "vs.And": true, zz + "vs.Or": true, zz + "vs.Implies": true,
	"strings.EqualFold": true, "strings.HasPrefix": true, "strings.HasSuffix": true,
}

func freshBase(v ssa.Value, b *ssa.BasicBlock) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x.Block() == b
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		default:
			return false
		}
	}
}

func pureBlock(b *ssa.BasicBlock) bool {
	if len(b.Instrs) > 40 {
		return false
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.DebugRef, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.ChangeType, *ssa.Alloc, *ssa.Slice, *ssa.MakeInterface, *ssa.ChangeInterface:
		case *ssa.Convert:
			_, ok1 := in.X.Type().Underlying().(*types.Basic)
			_, ok2 := in.Type().Underlying().(*types.Basic)
			if !ok1 || !ok2 {
				return false
			}
		case *ssa.Store:
			if !freshBase(in.Addr, b) {
				return false
			}
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				return false
			}
		case *ssa.BinOp:
			if in.Op == token.QUO || in.Op == token.REM {
				if _, ok := in.Y.(*ssa.Const); !ok {
					return false
				}
			}
		case *ssa.Lookup:
			if _, ok := in.X.Type().Underlying().(*types.Basic); !ok {
				return false
			}
		case *ssa.Call:
			switch f := in.Call.Value.(type) {
			case *ssa.Builtin:
				if f.Name() != "len" {
					return false
				}
			case *ssa.Function:
				if in.Call.IsInvoke() || !pureCalls[f.String()] {
					return false
				}
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}

func findRegion(b *ssa.BasicBlock) *region {
	if v, ok := regions.Load(b); ok {
		return v.(*region)
	}
	r := growRegion(b)
	regions.Store(b, r)
	return r
}

func growRegion(b *ssa.BasicBlock) *region {
	in := map[*ssa.BasicBlock]bool{}
	var order []*ssa.BasicBlock
	exits := func() map[*ssa.BasicBlock]bool {
		e := map[*ssa.BasicBlock]bool{}
		for _, x := range append([]*ssa.BasicBlock{b}, order...) {
			for _, s := range x.Succs {
				if !in[s] {
					e[s] = true
				}
			}
		}
		return e
	}
	best := 0
	for len(order) < maxRegion {
		var next *ssa.BasicBlock
	search:
		for _, x := range append([]*ssa.BasicBlock{b}, order...) {
			for _, s := range x.Succs {
				if in[s] || s == b || len(s.Succs) == 0 || !pureBlock(s) {
					continue
				}
				ok := true
				for _, pr := range s.Preds {
					if pr != b && !in[pr] {
						ok = false
					}
				}
				if ok {
					next = s
					break search
				}
			}
		}
		if next == nil {
			break
		}
		in[next] = true
		order = append(order, next)
		switch len(exits()) {
		case 1:
			best = len(order)
			return finish(order[:best])
		case 2:
			best = len(order)
		}
	}
	if best == 0 {
		return noRegion
	}
	return finish(order[:best])
}

func finish(order []*ssa.BasicBlock) *region {
	r := &region{blocks: order, in: map[*ssa.BasicBlock]bool{}}
	for _, x := range order {
		r.in[x] = true
	}
	return r
}

type guarded struct {
	from *ssa.BasicBlock
	c    *Term
}

// merge tries to evaluate the branch at the end of fr.block with condition c over its region;
// it reports whether control has moved to one of the region's exits.
func (fr *frame) merge(c *Term) (done bool) {
	p := fr.p
	if p.spec {
		return false
	}
	b := fr.block
	r := findRegion(b)
	if r == nil {
		return false
	}
	save := append([]Value(nil), fr.regs...)
	prv := fr.prv
	instr := fr.instr
	p.spec = true
	nc := len(p.covers)
	nf := len(p.frames)
	edges := map[*ssa.BasicBlock][]guarded{}
	ok := func() (ok bool) {
		defer func() {
			p.spec = false
			if x := recover(); x != nil {
				switch x.(type) {
				case specAbort, *targetPanic:
					ok = false
					p.frames = p.frames[:nf]
				default:
					panic(x)
				}
			}
		}()
		add := func(from, to *ssa.BasicBlock, g *Term) {
			if g == False {
				return
			}
			edges[to] = append(edges[to], guarded{from, g})
		}
		add(b, b.Succs[0], c)
		add(b, b.Succs[1], p.c.Not(c))
		for _, x := range r.blocks {
			es := edges[x]
			if len(es) == 0 {
				continue
			}
			g := False
			for _, e := range es {
				g = p.c.Or(g, e.c)
			}
			fr.mergePhis(x, es)
			fr.block = x
			for _, in := range x.Instrs {
				fr.instr = in
				p.steps++
				switch in := in.(type) {
				case *ssa.Phi:
				case *ssa.If:
					d, isT := fr.get(in.Cond).(*Term)
					if !isT {
						panic(specAbort{})
					}
					add(x, x.Succs[0], p.c.And(g, d))
					add(x, x.Succs[1], p.c.And(g, p.c.Not(d)))
				case *ssa.Jump:
					add(x, x.Succs[0], g)
				default:
					fr.exec(in)
				}
			}
			delete(edges, x)
		}
		return true
	}()
	p.spec = false
	p.covers = p.covers[:nc]
	if ok && (len(edges) == 0 || len(edges) > 2) {
		ok = false
	}
	restore := func() {
		copy(fr.regs, save)
		fr.block, fr.prv, fr.instr = b, prv, instr
	}
	if !ok {
		restore()
		return false
	}
	// the exits, in a fixed order
	var outs []*ssa.BasicBlock
	for _, x := range append([]*ssa.BasicBlock{b}, r.blocks...) {
		for _, s := range x.Succs {
			if _, is := edges[s]; is && !r.in[s] {
				dup := false
				for _, o := range outs {
					dup = dup || o == s
				}
				if !dup {
					outs = append(outs, s)
				}
			}
		}
	}
	// the values flowing into each exit must be mergeable before anything is decided
	type pend struct {
		phi *ssa.Phi
		v   Value
	}
	vals := make([][]pend, len(outs))
	for i, o := range outs {
		for _, in := range o.Instrs {
			ph, is := in.(*ssa.Phi)
			if !is {
				break
			}
			v, good := fr.mergeEdge(ph, o, edges[o])
			if !good {
				restore()
				return false
			}
			vals[i] = append(vals[i], pend{ph, v})
		}
	}
	k := 0
	if len(outs) == 2 {
		g := False
		for _, e := range edges[outs[0]] {
			g = p.c.Or(g, e.c)
		}
		fr.block, fr.instr = b, instr
		if !p.branch(g) {
			k = 1
		}
	}
	fr.prv, fr.block = edges[outs[k]][0].from, outs[k]
	for _, x := range vals[k] {
		fr.set(x.phi, x.v)
	}
	return true
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, pr := range b.Preds {
		if pr == from {
			return i
		}
	}
	return -1
}

func (fr *frame) mergePhis(b *ssa.BasicBlock, es []guarded) {
	var phis []*ssa.Phi
	var vs []Value
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v, good := fr.mergeEdge(ph, b, es)
		if !good {
			panic(specAbort{})
		}
		phis, vs = append(phis, ph), append(vs, v)
	}
	for i, ph := range phis {
		fr.set(ph, vs[i])
	}
}

// mergeEdge is the value of a phi over the guarded edges into its block.
func (fr *frame) mergeEdge(ph *ssa.Phi, b *ssa.BasicBlock, es []guarded) (Value, bool) {
	p := fr.p
	var r Value
	for i := len(es) - 1; i >= 0; i-- {
		v := fr.get(ph.Edges[predIndex(b, es[i].from)])
		if i == len(es)-1 {
			r = v
			continue
		}
		switch x := v.(type) {
		case *Term:
			y, ok := r.(*Term)
			if !ok || x.w != y.w {
				return nil, false
			}
			if x == y {
				continue
			}
			// merged loop counters would only be split again later
			if x.w != 0 && x.op == OpConst && y.op == OpConst && x.w == 64 {
				return nil, false
			}
			r = p.c.Ite(es[i].c, x, y)
		case string:
			if y, ok := r.(string); !ok || x != y {
				return nil, false
			}
		case *Value:
			if y, ok := r.(*Value); !ok || x != y {
				return nil, false
			}
		case *SymStr:
			if y, ok := r.(*SymStr); !ok || x != y {
				return nil, false
			}
		case []Value:
			y, ok := r.([]Value)
			if !ok || len(x) != len(y) || (x == nil) != (y == nil) || len(x) > 0 && &x[0] != &y[0] {
				return nil, false
			}
		case Iface:
			y, ok := r.(Iface)
			if !ok || x.t != y.t {
				return nil, false
			}
			if x.t == nil {
				continue
			}
			xc, ok1 := x.v.(*Value)
			yc, ok2 := y.v.(*Value)
			if !ok1 || !ok2 || xc != yc {
				return nil, false
			}
		default:
			return nil, false
		}
	}
	return r, true
}

// ---------------------------------------------------------------- whole functions

var pureFuncs sync.Map // *ssa.Function -> []*ssa.BasicBlock in topological order, nil when impure

func (w *World) pureFunc(fn *ssa.Function, depth int) []*ssa.BasicBlock {
	if v, ok := pureFuncs.Load(fn); ok {
		return v.([]*ssa.BasicBlock)
	}
	var none []*ssa.BasicBlock
	fi := w.info(fn)
	if fi.intr != nil || fi.repl != nil || len(fn.Blocks) < 2 || len(fn.Blocks) > maxRegion || fi.hasDef || depth > 3 || fn.Signature.Results().Len() != 1 {
		pureFuncs.Store(fn, none)
		return none
	}
	if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok {
		pureFuncs.Store(fn, none)
		return none
	}
	state := map[*ssa.BasicBlock]int{}
	var order []*ssa.BasicBlock
	ok := true
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if !ok {
			return
		}
		state[b] = 1
		if n := len(b.Instrs); n == 0 {
			ok = false
			return
		} else if _, ret := b.Instrs[n-1].(*ssa.Return); ret {
			c := *b
			c.Instrs = b.Instrs[:n-1]
			if !pureBlock(&c) {
				ok = false
			}
		} else if !pureBlock(b) {
			ok = false
		}
		for _, s := range b.Succs {
			switch state[s] {
			case 0:
				visit(s)
			case 1:
				ok = false // a loop
			}
		}
		state[b] = 2
		order = append(order, b)
	}
	visit(fn.Blocks[0])
	if !ok {
		pureFuncs.Store(fn, none)
		return none
	}
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	pureFuncs.Store(fn, order)
	return order
}

// mergeCall evaluates a small pure function over all its paths at once.
func (p *Path) mergeCall(caller *frame, fn *ssa.Function, args []Value) (res Value, ok bool) {
	if p.spec {
		return nil, false
	}
	symbolic := false
	for _, a := range args {
		if t, is := a.(*Term); is && t.op != OpConst {
			symbolic = true
		}
	}
	if !symbolic {
		return nil, false
	}
	order := p.w.e.world.pureFunc(fn, 0)
	if order == nil {
		return nil, false
	}
	fi := p.w.e.world.info(fn)
	fr := &frame{p: p, caller: caller, fn: fn, info: fi, regs: make([]Value, fi.nregs)}
	copy(fr.regs, args)
	nf := len(p.frames)
	p.frames = append(p.frames, fr)
	p.spec = true
	defer func() {
		p.spec = false
		p.frames = p.frames[:nf]
		if x := recover(); x != nil {
			switch x.(type) {
			case specAbort, *targetPanic:
				res, ok = nil, false
			default:
				panic(x)
			}
		}
	}()
	edges := map[*ssa.BasicBlock][]guarded{}
	add := func(from, to *ssa.BasicBlock, g *Term) {
		if g != False {
			edges[to] = append(edges[to], guarded{from, g})
		}
	}
	type ret struct {
		c *Term
		v *Term
	}
	var rets []ret
	for i, x := range order {
		g := True
		if i > 0 {
			es := edges[x]
			if len(es) == 0 {
				continue
			}
			g = False
			for _, e := range es {
				g = p.c.Or(g, e.c)
			}
			fr.mergePhis(x, es)
		}
		fr.block = x
		for _, in := range x.Instrs {
			fr.instr = in
			p.steps++
			switch in := in.(type) {
			case *ssa.Phi:
			case *ssa.If:
				d, isT := fr.get(in.Cond).(*Term)
				if !isT {
					panic(specAbort{})
				}
				add(x, x.Succs[0], p.c.And(g, d))
				add(x, x.Succs[1], p.c.And(g, p.c.Not(d)))
			case *ssa.Jump:
				add(x, x.Succs[0], g)
			case *ssa.Return:
				v, isT := fr.get(in.Results[0]).(*Term)
				if !isT {
					panic(specAbort{})
				}
				rets = append(rets, ret{g, v})
			default:
				fr.exec(in)
			}
		}
	}
	if len(rets) == 0 {
		return nil, false
	}
	r := rets[len(rets)-1].v
	for i := len(rets) - 2; i >= 0; i-- {
		if rets[i].v.w != r.w {
			return nil, false
		}
		r = p.c.Ite(rets[i].c, rets[i].v, r)
	}
	p.w.fnSeen[fn] = true
	return r, true
}
