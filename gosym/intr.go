package main

import (
	"crypto/hmac"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"go/types"
	"hash"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics map[string]intrinsic

func reg(name string, f intrinsic) { intrinsics[name] = f }

// callBody runs the real body of an intercepted function.
func (p *Path) callBody(fr *frame, fn *ssa.Function, args []Value) Value {
	fi := p.w.e.world.bodyInfo(fn)
	if fn.Blocks == nil {
		panic(p.unsupported("function without body: " + fn.String()))
	}
	p.w.fnSeen[fn] = true
	nf := &frame{p: p, caller: fr, fn: fn, info: fi, regs: make([]Value, fi.nregs)}
	copy(nf.regs, args)
	nf.block = fn.Blocks[0]
	p.frames = append(p.frames, nf)
	n := len(p.frames)
	for nf.block != nil {
		p.runFrame(nf)
	}
	p.frames = p.frames[:n-1]
	return nf.result
}

func (w *World) bodyInfo(fn *ssa.Function) *fnInfo {
	fi := w.info(fn)
	if fi.nregs == 0 || len(fi.idx) < len(fn.Params) || fn.Blocks == nil || fi.intr != nil {
		w.build(fn)
		fi2 := &fnInfo{idx: map[ssa.Value]int{}}
		add := func(v ssa.Value) { fi2.idx[v] = fi2.nregs; fi2.nregs++ }
		for _, x := range fn.Params {
			add(x)
		}
		for _, x := range fn.FreeVars {
			add(x)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					add(v)
				}
				if _, ok := in.(*ssa.Defer); ok {
					fi2.hasDef = true
				}
			}
		}
		return fi2
	}
	return fi
}

// invoke calls a method by name on an interface value.
func (p *Path) invoke(fr *frame, x Iface, name string, args ...Value) (Value, bool) {
	if x.t == nil {
		return nil, false
	}
	f := p.w.e.world.methodByName(x.t, name)
	if f == nil {
		return nil, false
	}
	return p.call(fr, f, append([]Value{x.v}, args...), nil), true
}

func (p *Path) label(s Value) string {
	l, ok := s.(string)
	if !ok {
		l = p.concStr(s, "label")
	}
	p.labels[l]++
	if n := p.labels[l]; n > 1 {
		return fmt.Sprintf("%s#%d", l, n)
	}
	return l
}

func (p *Path) input(name, kind string, v Value, sgn bool) {
	p.inputs = append(p.inputs, inputVar{name, kind, v, sgn})
}

func (p *Path) newVar(name string, w uint16) *Term {
	t := p.c.Var(name, w)
	if p.varSet[t] {
		panic(p.unsupported("variable name used twice: " + name))
	}
	p.addVar(t)
	return t
}

func (p *Path) symStr(name string, minLen, maxLen int, fix bool) *SymStr {
	b := make([]*Term, maxLen)
	for i := range b {
		b[i] = p.newVar(fmt.Sprintf("%s[%d]", name, i), 8)
	}
	var n *Term
	if fix {
		n = K(uint64(maxLen), 64)
	} else {
		// a narrow length variable keeps the solver's work small
		lw := uint16(8)
		if maxLen > 255 {
			lw = 16
		}
		lv := p.newVar(name+"#len", lw)
		n = p.c.Zext(lv, 64)
		p.boundVar(lv, uint64(minLen), uint64(maxLen))
		for i := range b {
			if i >= minLen {
				p.axiomTrueUnder(p.c.Or(p.c.Ult(K(uint64(i), lw), lv), p.c.Eq(b[i], K(0, 8))))
			}
		}
	}
	return &SymStr{n: n, b: b}
}

// boundVar constrains a fresh variable and keeps the model consistent.
func (p *Path) boundVar(v *Term, lo, hi uint64) {
	c := p.c.And(p.c.Ule(K(lo, v.w), v), p.c.Ule(v, K(hi, v.w)))
	if c.op == OpConst {
		return
	}
	if p.model != nil {
		if _, ok := p.model.v[v]; !ok {
			p.model.set(v, lo)
		}
	}
	p.axiom(c)
}

func (p *Path) axiomTrueUnder(c *Term) { p.axiom(c) }

func argStrs(p *Path, v Value) []Value { return p.slice(v) }

func init() {
	intrinsics = map[string]intrinsic{}
	vs := func(n string, f intrinsic) { reg(zz+"vs."+n, f) }
	vs("Symbolic", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return True })
	intv := func(w uint16, sgn bool) intrinsic {
		return func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			l := p.label(a[0])
			t := p.newVar(l, w)
			k := "int"
			if w == 0 {
				k = "bool"
			}
			p.input(l, k, t, sgn)
			return t
		}
	}
	vs("Int", intv(64, true))
	vs("Int64", intv(64, true))
	vs("Uint64", intv(64, false))
	vs("Int32", intv(32, true))
	vs("Uint32", intv(32, false))
	vs("Byte", intv(8, false))
	vs("Bool", intv(0, false))
	rng := func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		l := p.label(a[0])
		lo, hi := a[1].(*Term), a[2].(*Term)
		if lo.op != OpConst || hi.op != OpConst {
			panic(p.unsupported("symbolic range"))
		}
		span := hi.k - lo.k
		w := uint16(64)
		for _, x := range []uint16{4, 8, 16, 32, 40, 48} {
			if span <= mask(x) {
				w = x
				break
			}
		}
		v := p.newVar(l, w)
		p.boundVar(v, 0, span)
		t := p.c.Bin(OpAdd, p.c.Zext(v, 64), K(lo.k, 64))
		p.input(l, "int", t, true)
		return t
	}
	vs("IntRange", rng)
	vs("Int64Range", rng)
	vs("Choose", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		l := p.label(a[0])
		n := a[1].(*Term)
		v := p.newVar(l, 8)
		p.boundVar(v, 0, n.k-1)
		p.input(l, "int", p.c.Zext(v, 64), true)
		return K(p.concretize(v, "choice"), 64)
	})
	vs("Pick", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		l := p.label(a[0])
		opts := p.slice(a[1])
		v := p.newVar(l, 8)
		if len(opts) == 0 {
			panic(p.unsupported("empty Pick"))
		}
		p.boundVar(v, 0, uint64(len(opts)-1))
		var alts []Alt
		for i, o := range opts {
			s, ok := o.(string)
			if !ok {
				// symbolic option: choose by fork
				k := p.concretize(v, "pick")
				p.input(l, "int", K(k, 64), true)
				return opts[k]
			}
			alts = append(alts, Alt{p.c.Eq(v, K(uint64(i), 8)), s})
		}
		p.input(l, "int", p.c.Zext(v, 64), true)
		return p.mkAlts(alts)
	})
	vs("Str", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		l := p.label(a[0])
		s := p.symStr(l, 0, int(a[1].(*Term).k), false)
		p.input(l, "str", s, false)
		return s
	})
	vs("StrRange", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		l := p.label(a[0])
		lo, hi := int(a[1].(*Term).k), int(a[2].(*Term).k)
		s := p.symStr(l, lo, hi, lo == hi)
		p.input(l, "str", s, false)
		return mkStr(s.n, s.b)
	})
	vs("StrIn", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		l := p.label(a[0])
		lo, hi := int(a[1].(*Term).k), int(a[2].(*Term).k)
		s := p.symStr(l, lo, hi, lo == hi)
		cs := a[3].(string)
		for i, b := range s.b {
			in := p.inSet(b, cs)
			if i >= lo {
				in = p.c.Or(in, p.c.Ule(s.n, K(uint64(i), 64)))
			}
			if p.model != nil && i < lo {
				p.model.set(b, uint64(cs[0]))
			}
			p.axiom(in)
		}
		p.input(l, "str", s, false)
		return mkStr(s.n, s.b)
	})
	vs("Bytes", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		l := p.label(a[0])
		s := p.symStr(l, 0, int(a[1].(*Term).k), false)
		p.input(l, "str", s, false)
		return &LazyBytes{s: s}
	})
	vs("BytesN", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		l := p.label(a[0])
		s := p.symStr(l, 0, int(a[1].(*Term).k), true)
		p.input(l, "str", s, false)
		return values(s.b)
	})
	vs("Assume", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { p.vsAssume(a[0].(*Term)); return nil })
	vs("Assert", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		l, ok := a[1].(string)
		if !ok {
			panic(p.unsupported("symbolic label"))
		}
		p.vsAssert(a[0].(*Term), l)
		return nil
	})
	vs("Possible", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.vsPossible(a[0].(*Term), a[1].(string))
		return nil
	})
	vs("Cover", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.covers = append(p.covers, a[0].(string))
		return nil
	})
	vs("Stop", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		panic(abortPath{"infeasible", "stop"})
	})
	vs("And", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		r := True
		for _, x := range p.slice(a[0]) {
			r = p.c.And(r, x.(*Term))
		}
		return r
	})
	vs("Or", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		r := False
		for _, x := range p.slice(a[0]) {
			r = p.c.Or(r, x.(*Term))
		}
		return r
	})
	vs("Implies", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return p.c.Implies(a[0].(*Term), a[1].(*Term))
	})
	vs("Debug", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		if p.w.e.opt.verbose {
			fmt.Printf("DEBUG %v", a[0])
			for _, x := range p.slice(a[1]) {
				fmt.Printf(" %s", p.show(x))
			}
			fmt.Println()
		}
		return nil
	})
	vs("SetNow", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.now = a[0].(*Term)
		p.nowNs = K(0, 64)
		return nil
	})
	reg(zz+"models.apply", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		size := int(a[1].(*Term).k)
		var args []Value
		for _, x := range p.slice(a[2]) {
			args = append(args, p.bytesStr(x))
		}
		return values(p.apply(a[0].(string), size, args...))
	})
}

// inSet is the formula b in cs.
func (p *Path) inSet(b *Term, cs string) *Term {
	var in [256]bool
	for i := 0; i < len(cs); i++ {
		in[cs[i]] = true
	}
	r := False
	for i := 0; i < 256; {
		if !in[i] {
			i++
			continue
		}
		j := i
		for j+1 < 256 && in[j+1] {
			j++
		}
		r = p.c.Or(r, p.c.And(p.c.Ule(K(uint64(i), 8), b), p.c.Ule(b, K(uint64(j), 8))))
		i = j + 1
	}
	return r
}

func (p *Path) show(v Value) string {
	switch v := v.(type) {
	case *Term:
		return v.String()
	case string:
		return fmt.Sprintf("%q", v)
	case *SymStr:
		if v.alts != nil {
			s := "pick{"
			for _, a := range v.alts {
				s += fmt.Sprintf("%q ", a.s)
			}
			return s + "}"
		}
		return "sym(len " + v.n.String() + ")"
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return v.t.String() + ":" + p.show(v.v)
	case []Value:
		var sb strings.Builder
		sb.WriteString("[")
		for _, x := range v {
			sb.WriteString(p.show(x) + " ")
		}
		return sb.String() + "]"
	case *Value:
		if v == nil {
			return "nilptr"
		}
		return "&" + p.show(*v)
	case StructV:
		var sb strings.Builder
		sb.WriteString("{")
		for _, x := range v {
			sb.WriteString(p.show(x) + " ")
		}
		return sb.String() + "}"
	}
	return fmt.Sprintf("%T", v)
}

// nativeHash computes the real function behind an application; unknown names get an
// injective stand-in (they are also computed by the same stand-in natively).
func nativeHash(fn string, size int, args []string) []byte {
	var h hash.Hash
	switch {
	case fn == "sha256":
		h = sha256.New()
	case fn == "sha512":
		h = sha512.New()
	case fn == "sha384":
		h = sha512.New384()
	case fn == "sha1":
		h = sha1.New()
	case fn == "hmac-sha256":
		m := hmac.New(sha256.New, []byte(args[0]))
		m.Write([]byte(args[1]))
		return m.Sum(nil)[:size]
	case fn == "hmac-sha512":
		m := hmac.New(sha512.New, []byte(args[0]))
		m.Write([]byte(args[1]))
		return m.Sum(nil)[:size]
	case strings.HasPrefix(fn, "base62:"):
		return base62Of(size, []byte(args[0]))
	case strings.HasPrefix(fn, "blake2b"):
		return blake2bSum(size, []byte(args[0]), []byte(args[1]))
	}
	if h != nil {
		h.Write([]byte(args[0]))
		s := h.Sum(nil)
		if size <= len(s) {
			return s[:size]
		}
	}
	// generic stand-in: counter-mode SHA-256 over a length-prefixed encoding
	enc := []byte(fn)
	for _, a := range args {
		enc = binary.BigEndian.AppendUint32(enc, uint32(len(a)))
		enc = append(enc, a...)
	}
	var out []byte
	for i := byte(0); len(out) < size; i++ {
		s := sha256.Sum256(append([]byte{i}, enc...))
		out = append(out, s[:]...)
	}
	return out[:size]
}

func typeStr(t types.Type) string { return types.TypeString(t, nil) }
