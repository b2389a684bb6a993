package main

import (
	"fmt"
	"strings"
)

// App is one application of an uninterpreted, collision-free function (hash, MAC...).
type App struct {
	fn   string
	args []Value // strings
	outs []*Term
	key  string
}

func mkFixed(b []*Term) Value {
	conc := true
	for _, t := range b {
		if t.op != OpConst {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, t := range b {
			bs[i] = byte(t.k)
		}
		return string(bs)
	}
	return &SymStr{n: K(uint64(len(b)), 64), b: b}
}

func mkStr(n *Term, b []*Term) Value {
	if n.op == OpConst {
		if int(n.k) < len(b) {
			b = b[:n.k]
		}
		return mkFixed(b)
	}
	return &SymStr{n: n, b: b}
}

func (p *Path) mkAlts(alts []Alt) Value {
	// merge equal strings, drop impossible ones
	var out []Alt
	idx := map[string]int{}
	for _, a := range alts {
		if a.c == False {
			continue
		}
		if i, ok := idx[a.s]; ok {
			out[i].c = p.c.Or(out[i].c, a.c)
			continue
		}
		idx[a.s] = len(out)
		out = append(out, a)
	}
	if len(out) == 0 {
		return ""
	}
	if len(out) == 1 {
		return out[0].s
	}
	return &SymStr{alts: out}
}

// flat makes sure n and b are set.
func (p *Path) flat(s *SymStr) *SymStr {
	if s.alts != nil && s.n == nil {
		last := s.alts[len(s.alts)-1]
		n := K(uint64(len(last.s)), 64)
		cp := 0
		for _, a := range s.alts {
			cp = max(cp, len(a.s))
		}
		b := make([]*Term, cp)
		at := func(s string, i int) *Term {
			if i < len(s) {
				return K(uint64(s[i]), 8)
			}
			return K(0, 8)
		}
		for i := range b {
			b[i] = at(last.s, i)
		}
		for j := len(s.alts) - 2; j >= 0; j-- {
			a := s.alts[j]
			n = p.c.Ite(a.c, K(uint64(len(a.s)), 64), n)
			for i := range b {
				b[i] = p.c.Ite(a.c, at(a.s, i), b[i])
			}
		}
		s.n, s.b = n, b
	}
	return s
}

func constBytes(s string) []*Term {
	b := make([]*Term, len(s))
	for i := range b {
		b[i] = smallConst[1][s[i]]
	}
	return b
}

func (p *Path) sym(v Value) *SymStr {
	switch v := v.(type) {
	case string:
		return &SymStr{n: K(uint64(len(v)), 64), b: constBytes(v)}
	case *SymStr:
		return p.flat(v)
	}
	panic(p.unsupported(fmt.Sprintf("string expected, got %T", v)))
}

func (p *Path) strLen(v Value) *Term {
	switch v := v.(type) {
	case string:
		return K(uint64(len(v)), 64)
	case *SymStr:
		if v.alts != nil && v.n == nil {
			n := K(uint64(len(v.alts[len(v.alts)-1].s)), 64)
			for j := len(v.alts) - 2; j >= 0; j-- {
				n = p.c.Ite(v.alts[j].c, K(uint64(len(v.alts[j].s)), 64), n)
			}
			return n
		}
		return p.known(v.n)
	}
	panic(p.unsupported(fmt.Sprintf("len of %T", v)))
}

// eqBytes compares two byte vectors of the same length.
func (p *Path) eqBytes(a, b []*Term) *Term {
	c := p.c
	r := True
	n := len(a)
	for i := 0; i < n; {
		if x, y := a[i], b[i]; x.app != nil && y.app != nil && x.idx == 0 && y.idx == 0 && x.app.fn == y.app.fn && x.app != y.app {
			l := len(x.app.outs)
			full := i+l <= n && l == len(y.app.outs)
			for j := 0; full && j < l; j++ {
				full = a[i+j] == x.app.outs[j] && b[i+j] == y.app.outs[j]
			}
			if full {
				r = c.And(r, p.appArgsEq(x.app, y.app))
				if r == False {
					return r
				}
				i += l
				continue
			}
		}
		r = c.And(r, c.Eq(a[i], b[i]))
		if r == False {
			return r
		}
		i++
	}
	return r
}

// digRun recognises a run of encoded digits (hex or base64) of a whole application output.
func (p *Path) undig(b []*Term) ([]*Term, Op, bool) {
	if len(b) == 0 {
		return nil, 0, false
	}
	op := OpConst
	var per int
	for _, t := range b {
		if t.op == OpHexDig || t.op == OpB64Dig || t.op == OpB64Std {
			op = t.op
			break
		}
	}
	switch op {
	case OpHexDig:
		per = 4
	case OpB64Dig, OpB64Std:
		per = 6
	default:
		return nil, 0, false
	}
	var acc *Term
	var out []*Term
	for _, t := range b {
		var d *Term
		switch {
		case t.op == op:
			d = t.args[0]
		case t.op == OpConst:
			v := -1
			for k := uint64(0); k < 1<<per; k++ {
				if digVal(op, k) == t.k {
					v = int(k)
				}
			}
			if v < 0 {
				return nil, 0, false
			}
			d = K(uint64(v), uint16(per))
		default:
			return nil, 0, false
		}
		if acc == nil {
			acc = d
		} else {
			acc = p.c.Concat(acc, d)
		}
		for acc != nil && acc.w >= 8 {
			hi := p.c.Extract(acc, uint64(acc.w-8), 8)
			out = append(out, hi)
			if acc.w == 8 {
				acc = nil
			} else {
				acc = p.c.Extract(acc, 0, acc.w-8)
			}
		}
	}
	if acc != nil {
		out = append(out, p.c.Zext(acc, 8))
	}
	return out, op, true
}

func (p *Path) strEq(x, y Value) *Term {
	xs, xok := x.(string)
	ys, yok := y.(string)
	if xok && yok {
		return KB(xs == ys)
	}
	if x == y {
		return True
	}
	c := p.c
	if a, ok := x.(*SymStr); ok && a.alts != nil {
		if yok {
			for _, al := range a.alts {
				if al.s == ys {
					return al.c
				}
			}
			return False
		}
		if b, ok := y.(*SymStr); ok && b.alts != nil {
			r := False
			for _, al := range a.alts {
				for _, bl := range b.alts {
					if al.s == bl.s {
						r = c.Or(r, c.And(al.c, bl.c))
					}
				}
			}
			return r
		}
		r := False
		for _, al := range a.alts {
			r = c.Or(r, c.And(al.c, p.strEq(al.s, y)))
		}
		return r
	}
	if b, ok := y.(*SymStr); ok && b.alts != nil {
		return p.strEq(y, x)
	}
	a, b := p.sym(x), p.sym(y)
	an, bn := p.known(a.n), p.known(b.n)
	if an.op == OpConst && bn.op == OpConst && an.k != bn.k {
		return False
	}
	if an.op == OpConst && int(an.k) > len(b.b) || bn.op == OpConst && int(bn.k) > len(a.b) {
		return False
	}
	r := c.Eq(an, bn)
	if r == False {
		return r
	}
	n := min(len(a.b), len(b.b))
	ab, bb := a.b[:n], b.b[:n]
	if ua, opa, ok := p.undig(ab); ok {
		if ub, opb, ok := p.undig(bb); ok && opa == opb && len(ua) == len(ub) {
			return c.And(r, p.eqBytes(ua, ub))
		}
	}
	return c.And(r, p.eqBytes(ab, bb))
}

func (p *Path) appArgsEq(a, b *App) *Term {
	r := True
	for i := range a.args {
		r = p.c.And(r, p.strEq(a.args[i], b.args[i]))
		if r == False {
			break
		}
	}
	return r
}

func strKey(v Value) string {
	switch v := v.(type) {
	case string:
		return fmt.Sprintf("c%d:%s", len(v), v)
	case *SymStr:
		var sb strings.Builder
		if v.alts != nil {
			sb.WriteString("a")
			for _, a := range v.alts {
				fmt.Fprintf(&sb, "%d=%d:%s,", a.c.id, len(a.s), a.s)
			}
			return sb.String()
		}
		if v.n.op == OpConst {
			fmt.Fprintf(&sb, "k%d", v.n.k)
		} else {
			fmt.Fprintf(&sb, "n%d", v.n.id)
		}
		for _, t := range v.b {
			if t.op == OpConst {
				fmt.Fprintf(&sb, ",k%d", t.k)
			} else {
				fmt.Fprintf(&sb, ",%d", t.id)
			}
		}
		return sb.String()
	}
	return "?"
}

// apply models an application of collision-free function fn with size output bytes.
func (p *Path) apply(fn string, size int, args ...Value) []*Term {
	conc := make([]string, len(args))
	all := true
	key := fn
	for i, a := range args {
		if s, ok := a.(string); ok {
			conc[i] = s
		} else {
			all = false
		}
		key += "|" + strKey(a)
	}
	app := p.c.apps[key]
	if app == nil {
		app = &App{fn: fn, args: args, key: key}
		app.outs = make([]*Term, size)
		if all {
			for i, b := range nativeHash(fn, size, conc) {
				app.outs[i] = K(uint64(b), 8)
			}
		} else {
			id := len(p.c.apps)
			for i := range app.outs {
				t := p.c.Var(fmt.Sprintf("app!%s!%d!%d", fn, id, i), 8)
				t.app, t.idx = app, i
				app.outs[i] = t
			}
		}
		p.c.apps[key] = app
	}
	for _, o := range p.apps {
		if o == app {
			return app.outs
		}
	}
	// consistency and collision freedom against every earlier application on this path
	var others []*App
	for _, o := range p.apps {
		if o.fn == fn && len(o.outs) == len(app.outs) {
			others = append(others, o)
		}
	}
	p.apps = append(p.apps, app)
	if !all {
		for _, t := range app.outs {
			p.addVar(t)
		}
		if p.model != nil {
			ev := make([]string, len(args))
			for i, a := range args {
				ev[i] = p.evalStr(p.model, a)
			}
			h := nativeHash(fn, size, ev)
			for i, t := range app.outs {
				p.model.set(t, uint64(h[i]))
			}
		}
	}
	for _, o := range others {
		ae := p.appArgsEq(o, app)
		oe := True
		for i := range app.outs {
			oe = p.c.And(oe, p.c.Eq(o.outs[i], app.outs[i]))
		}
		if ae == oe {
			continue
		}
		p.axiom(p.c.Eq(ae, oe))
	}
	return app.outs
}

func (p *Path) evalStr(m *Model, v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		if v.alts != nil {
			for _, a := range v.alts {
				if m.Eval(a.c) != 0 {
					return a.s
				}
			}
			return v.alts[len(v.alts)-1].s
		}
		n := m.Eval(v.n)
		if n > uint64(len(v.b)) {
			n = uint64(len(v.b))
		}
		bs := make([]byte, n)
		for i := range bs {
			bs[i] = byte(m.Eval(v.b[i]))
		}
		return string(bs)
	}
	return ""
}

// fixLen forks until the length of s is concrete and returns its bytes.
func (p *Path) fixLen(v Value) []*Term {
	if s, ok := v.(string); ok {
		return constBytes(s)
	}
	s := v.(*SymStr)
	if s.alts != nil {
		return constBytes(p.pickAlt(s))
	}
	n := p.known(s.n)
	if n.op == OpConst {
		return s.b[:n.k]
	}
	k := p.concretize(n, "string length")
	if k > uint64(len(s.b)) {
		panic(p.unsupported("string length beyond capacity"))
	}
	return s.b[:k]
}

// pickAlt forks over the alternatives of s.
func (p *Path) pickAlt(s *SymStr) string {
	for i, a := range s.alts {
		if i == len(s.alts)-1 {
			p.branchHint(a.c)
			return a.s
		}
		if p.branch(a.c) {
			return a.s
		}
	}
	panic("unreachable")
}

// branchHint records that c holds (it is implied by the path condition).
func (p *Path) branchHint(c *Term) { p.learn(c, true) }

// simplifyStr forks alternatives and fixes the length: the result is a Go string or a fixed SymStr.
func (p *Path) fixStr(v Value) Value {
	if s, ok := v.(string); ok {
		return s
	}
	return mkFixed(p.fixLen(v))
}

// concStr forces a fully concrete Go string, forking on the values of its bytes.
func (p *Path) concStr(v Value, why string) string {
	if s, ok := v.(string); ok {
		return s
	}
	b := p.fixLen(v)
	out := make([]byte, len(b))
	for i, t := range b {
		out[i] = byte(p.concretize(t, why))
	}
	return string(out)
}

func (p *Path) strConcat(x, y Value) Value {
	xs, xok := x.(string)
	ys, yok := y.(string)
	switch {
	case xok && yok:
		return xs + ys
	case xok && xs == "":
		return y
	case yok && ys == "":
		return x
	}
	if a, ok := x.(*SymStr); ok && a.alts != nil {
		if yok {
			return p.mapAlts(a, func(s string) string { return s + ys })
		}
		if b, ok := y.(*SymStr); ok && b.alts != nil && len(a.alts)*len(b.alts) <= 16 {
			var out []Alt
			for _, al := range a.alts {
				for _, bl := range b.alts {
					out = append(out, Alt{p.c.And(al.c, bl.c), al.s + bl.s})
				}
			}
			return p.mkAlts(out)
		}
		return p.strConcat(p.pickAlt(a), y)
	}
	if b, ok := y.(*SymStr); ok && b.alts != nil {
		if xok {
			return p.mapAlts(b, func(s string) string { return xs + s })
		}
		return p.strConcat(x, p.pickAlt(b))
	}
	a, b := p.sym(x), p.sym(y)
	an, bn := p.known(a.n), p.known(b.n)
	if an.op == OpConst {
		bb := make([]*Term, 0, int(an.k)+len(b.b))
		bb = append(bb, a.b[:an.k]...)
		bb = append(bb, b.b...)
		return mkStr(p.c.Bin(OpAdd, an, bn), bb)
	}
	if len(a.b)*len(b.b) > 4096 {
		return p.strConcat(mkFixed(p.fixLen(x)), y)
	}
	// muxed concatenation
	out := make([]*Term, len(a.b)+len(b.b))
	for k := range out {
		t := K(0, 8)
		// for every possible length la of a
		for la := 0; la <= len(a.b); la++ {
			var v *Term
			switch {
			case k < la:
				v = a.b[k]
			case k-la < len(b.b):
				v = b.b[k-la]
			default:
				v = K(0, 8)
			}
			if la == 0 {
				t = v
			} else {
				t = p.c.Ite(p.c.Eq(an, K(uint64(la), 64)), v, t)
			}
		}
		out[k] = t
	}
	return mkStr(p.c.Bin(OpAdd, an, bn), out)
}

func (p *Path) mapAlts(s *SymStr, f func(string) string) Value {
	out := make([]Alt, len(s.alts))
	for i, a := range s.alts {
		out[i] = Alt{a.c, f(a.s)}
	}
	return p.mkAlts(out)
}

// strAt returns byte i of s (bounds already checked).
func (p *Path) strAt(v Value, i *Term) *Term {
	i = p.known(i)
	if s, ok := v.(string); ok && i.op == OpConst {
		return smallConst[1][s[i.k]]
	}
	s := p.sym(v)
	if i.op == OpConst {
		return s.b[i.k]
	}
	return p.muxBytes(s.b, i)
}

// muxBytes selects b[i] for i < len(b).
func (p *Path) muxBytes(b []*Term, i *Term) *Term {
	if len(b) == 0 {
		return K(0, 8)
	}
	return p.mux(b, i, 0)
}

func (p *Path) mux(b []*Term, i *Term, base int) *Term {
	if len(b) == 1 {
		return b[0]
	}
	allSame := true
	for _, t := range b[1:] {
		if !same(t, b[0]) {
			allSame = false
			break
		}
	}
	if allSame {
		return b[0]
	}
	h := len(b) / 2
	return p.c.Ite(p.c.Ult(i, K(uint64(base+h), i.w)), p.mux(b[:h], i, base), p.mux(b[h:], i, base+h))
}

// strSlice returns s[lo:hi] (bounds already checked).
func (p *Path) strSlice(v Value, lo, hi *Term) Value {
	lo, hi = p.known(lo), p.known(hi)
	if s, ok := v.(string); ok && lo.op == OpConst && hi.op == OpConst {
		return s[lo.k:hi.k]
	}
	if s, ok := v.(*SymStr); ok && s.alts != nil {
		if lo.op == OpConst && hi == p.strLen(v) {
			ok := true
			for _, a := range s.alts {
				ok = ok && uint64(len(a.s)) >= lo.k
			}
			if ok {
				return p.mapAlts(s, func(x string) string { return x[lo.k:] })
			}
		}
		if lo.op == OpConst && hi.op == OpConst {
			ok := true
			for _, a := range s.alts {
				ok = ok && uint64(len(a.s)) >= hi.k
			}
			if ok {
				return p.mapAlts(s, func(x string) string { return x[lo.k:hi.k] })
			}
		}
		return p.strSlice(p.pickAlt(s), lo, hi)
	}
	s := p.sym(v)
	if lo.op != OpConst {
		k := p.concretize(lo, "slice bound")
		lo = K(k, 64)
	}
	if lo.k > uint64(len(s.b)) {
		return ""
	}
	b := s.b[lo.k:]
	if hi.op == OpConst {
		n := hi.k - lo.k
		if n <= uint64(len(b)) {
			return mkFixed(b[:n])
		}
		return mkFixed(b)
	}
	n := p.c.Bin(OpSub, hi, lo)
	if same(hi, p.known(s.n)) {
		return mkStr(n, b)
	}
	out := make([]*Term, len(b))
	for i := range b {
		out[i] = p.c.Ite(p.c.Ult(K(uint64(i), 64), n), b[i], K(0, 8))
	}
	return mkStr(n, out)
}

func (p *Path) strLess(x, y Value) *Term {
	xs, xok := x.(string)
	ys, yok := y.(string)
	if xok && yok {
		return KB(xs < ys)
	}
	a, b := p.sym(x), p.sym(y)
	c := p.c
	n := max(len(a.b), len(b.b))
	at := func(s *SymStr, i int) *Term {
		if i < len(s.b) {
			return s.b[i]
		}
		return K(0, 8)
	}
	// lexicographic on zero-padded bytes, ties decided by length
	r := c.Ult(p.known(a.n), p.known(b.n))
	for i := n - 1; i >= 0; i-- {
		ai, bi := at(a, i), at(b, i)
		inA := c.Ult(K(uint64(i), 64), p.known(a.n))
		inB := c.Ult(K(uint64(i), 64), p.known(b.n))
		both := c.And(inA, inB)
		r = c.Ite(both, c.Or(c.Ult(ai, bi), c.And(c.Eq(ai, bi), r)), c.Ult(p.known(a.n), p.known(b.n)))
	}
	return r
}

// runeCount is the number of runes of a string, by where a decoder finds their starts.
func (p *Path) runeCount(v Value) *Term {
	s := p.flat(p.sym(v))
	c := p.c
	b := s.b
	in := func(i int, lo, hi uint64) *Term {
		if i >= len(b) {
			return False
		}
		return c.And(c.Ule(K(lo, 8), b[i]), c.Ule(b[i], K(hi, 8)))
	}
	cont := func(i int) *Term { return in(i, 0x80, 0xBF) }
	n := len(b)
	w := make([][5]*Term, n)
	start := make([]*Term, n)
	nw := uint16(8)
	if n > 250 {
		nw = 16
	}
	count := K(0, nw)
	for i := 0; i < n; i++ {
		two := c.And(in(i, 0xC2, 0xDF), cont(i+1))
		three := c.And(cont(i+2), c.Or(c.And(in(i, 0xE0, 0xE0), in(i+1, 0xA0, 0xBF)),
			c.Or(c.And(c.Or(in(i, 0xE1, 0xEC), in(i, 0xEE, 0xEF)), cont(i+1)), c.And(in(i, 0xED, 0xED), in(i+1, 0x80, 0x9F)))))
		four := c.And(c.And(cont(i+2), cont(i+3)), c.Or(c.And(in(i, 0xF0, 0xF0), in(i+1, 0x90, 0xBF)),
			c.Or(c.And(in(i, 0xF1, 0xF3), cont(i+1)), c.And(in(i, 0xF4, 0xF4), in(i+1, 0x80, 0x8F)))))
		w[i] = [5]*Term{nil, c.Not(c.Or(two, c.Or(three, four))), two, three, four}
		st := False
		if i == 0 {
			st = True
		}
		for k := 1; k <= 4 && k <= i; k++ {
			st = c.Or(st, c.And(start[i-k], w[i-k][k]))
		}
		start[i] = st
		count = c.Bin(OpAdd, count, c.Ite(c.And(st, c.Ult(K(uint64(i), 64), s.n)), K(1, nw), K(0, nw)))
	}
	return c.Zext(count, 64)
}
