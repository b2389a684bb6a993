package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// altFirst forks alternative strings among the arguments before running the real body.
func altFirst(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
	b := append([]Value(nil), a...)
	for i, x := range b {
		if s, ok := x.(*SymStr); ok && s.alts != nil {
			b[i] = p.pickAlt(s)
		}
	}
	return p.callBody(fr, fn, b)
}

func noop(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return zeroResult(fn) }

func ident(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] }

func (p *Path) mkErr(msg Value) Value {
	t := p.w.e.world.typeOf("errors", "errorString")
	var cell Value = StructV{msg}
	return Iface{types.NewPointer(t), &cell}
}

var ptrCache = map[types.Type]types.Type{}

// errText calls Error() on an error value.
func (p *Path) errText(fr *frame, x Iface) Value {
	v, ok := p.invoke(fr, x, "Error")
	if !ok {
		return "?"
	}
	return v
}

// fmtValue renders one operand of a formatting verb.
func (p *Path) fmtValue(fr *frame, verb byte, flags string, x Value) Value {
	i, ok := x.(Iface)
	if !ok {
		return "?"
	}
	if i.t == nil {
		if verb == 's' || verb == 'd' {
			return "%!" + string(verb) + "(<nil>)"
		}
		return "<nil>"
	}
	if verb == 'T' {
		return i.t.String()
	}
	if verb == 's' || verb == 'v' || verb == 'q' || verb == 'w' {
		if m := p.w.e.world.methodByName(i.t, "Error"); m != nil && m.Signature.Results().Len() == 1 {
			if isNilVal(i.v) {
				return "<nil>"
			}
			v, _ := p.invoke(fr, i, "Error")
			return p.fmtStr(verb, flags, v)
		}
		if m := p.w.e.world.methodByName(i.t, "String"); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 {
			if isNilVal(i.v) {
				return "<nil>"
			}
			v, _ := p.invoke(fr, i, "String")
			return p.fmtStr(verb, flags, v)
		}
	}
	switch v := i.v.(type) {
	case string, *SymStr:
		return p.fmtStr(verb, flags, v)
	case *LazyBytes:
		if verb == 's' || verb == 'x' {
			return p.fmtStr(verb, flags, p.bytesStr(v))
		}
	case []Value:
		if sl, ok := i.t.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte && (verb == 's' || verb == 'x') {
				return p.fmtStr(verb, flags, p.bytesStr(v))
			}
			var r Value = "["
			for k, e := range v {
				if k > 0 {
					r = p.strConcat(r, " ")
				}
				r = p.strConcat(r, p.fmtValue(fr, verb, flags, Iface{sl.Elem(), e}))
			}
			return p.strConcat(r, "]")
		}
	case ArrayV:
		if len(v) > 0 {
			if t, ok := v[0].(*Term); ok && t.w == 8 && verb == 'x' {
				return p.fmtStr(verb, flags, mkFixed(terms(v)))
			}
		}
	case *Term:
		if v.w == 0 {
			if v.op != OpConst {
				return p.mkAlts([]Alt{{v, "true"}, {p.c.Not(v), "false"}})
			}
			return strconv.FormatBool(v.k != 0)
		}
		t := p.known(v)
		if t.op != OpConst {
			if _, ok := i.t.Underlying().(*types.Basic); ok && v.w == 8 && (flags == "02" && verb == 'x') {
				return mkFixed([]*Term{p.c.Dig(OpHexDig, p.c.Extract(v, 4, 4)), p.c.Dig(OpHexDig, p.c.Extract(v, 0, 4))})
			}
			t = K(p.concretize(t, "formatted integer"), v.w)
		}
		f := "%" + flags + string(verb)
		if verb == 'w' || verb == 's' {
			f = "%v"
		}
		if isSigned(i.t) {
			return fmt.Sprintf(f, sext64(t.k, t.w))
		}
		return fmt.Sprintf(f, t.k)
	case float64:
		return fmt.Sprintf("%"+flags+string(verb), v)
	case *Value:
		if v == nil {
			return "<nil>"
		}
		return "0xc000000000"
	case Iface:
		return p.fmtValue(fr, verb, flags, v)
	case StructV:
		st, ok := i.t.Underlying().(*types.Struct)
		if !ok {
			break
		}
		var r Value = "{"
		for k, e := range v {
			if k > 0 {
				r = p.strConcat(r, " ")
			}
			r = p.strConcat(r, p.fmtValue(fr, verb, flags, Iface{st.Field(k).Type(), e}))
		}
		return p.strConcat(r, "}")
	}
	return "?"
}

func (p *Path) hexStr(v Value) Value {
	if s, ok := v.(string); ok {
		return fmt.Sprintf("%x", s)
	}
	b := p.fixLen(v)
	out := make([]*Term, 0, 2*len(b))
	for _, t := range b {
		out = append(out, p.c.Dig(OpHexDig, p.c.Extract(t, 4, 4)), p.c.Dig(OpHexDig, p.c.Extract(t, 0, 4)))
	}
	return mkFixed(out)
}

func (p *Path) fmtStr(verb byte, flags string, v Value) Value {
	if s, ok := v.(string); ok {
		if verb == 'w' {
			verb = 's'
		}
		return fmt.Sprintf("%"+flags+string(verb), s)
	}
	switch verb {
	case 'x':
		return p.hexStr(v)
	case 'q':
		return p.strConcat(p.strConcat(`"`, v), `"`)
	}
	return v
}

// sprintf formats with the real syntax; the arguments stay symbolic where they can.
func (p *Path) sprintf(fr *frame, f Value, args []Value) Value {
	fs, ok := f.(string)
	if !ok {
		if len(args) == 0 {
			return f
		}
		fs = p.concStr(f, "format")
	}
	var r Value = ""
	lit := ""
	n := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			lit += string(fs[i])
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			break
		}
		verb, flags := fs[j], fs[i+1:j]
		i = j
		if verb == '%' {
			lit += "%"
			continue
		}
		if n >= len(args) {
			lit += "%!" + string(verb) + "(MISSING)"
			continue
		}
		r = p.strConcat(r, lit)
		lit = ""
		r = p.strConcat(r, p.fmtValue(fr, verb, flags, args[n]))
		n++
	}
	return p.strConcat(r, lit)
}

// indexOf forks over the first position at which match holds; -1 when none.
func (p *Path) firstPos(n *Term, cp int, match func(i int) *Term) Value {
	for i := 0; i < cp; i++ {
		c := p.c.And(p.c.Ult(K(uint64(i), 64), n), match(i))
		if p.branch(c) {
			return K(uint64(i), 64)
		}
	}
	return K(^uint64(0), 64)
}

func (p *Path) indexByte(s Value, b *Term) Value {
	if x, ok := s.(*SymStr); ok && x.alts != nil {
		s = p.pickAlt(x)
	}
	if cs, ok := s.(string); ok && b.op == OpConst {
		return K(uint64(int64(strings.IndexByte(cs, byte(b.k)))), 64)
	}
	x := p.sym(s)
	return p.firstPos(p.known(x.n), len(x.b), func(i int) *Term { return p.c.Eq(x.b[i], b) })
}

// matchAt is the formula: sub occurs in s at position i (i concrete, within bounds implied).
func (p *Path) matchAt(s *SymStr, sub []*Term, i int) *Term {
	if i+len(sub) > len(s.b) {
		return False
	}
	r := p.c.Ule(K(uint64(i+len(sub)), 64), p.known(s.n))
	if r == False {
		return r
	}
	return p.c.And(r, p.eqBytes(s.b[i:i+len(sub)], sub))
}

func (p *Path) strContains(s, sub Value) *Term {
	if a, ok := s.(string); ok {
		if b, ok := sub.(string); ok {
			return KB(strings.Contains(a, b))
		}
	}
	if x, ok := s.(*SymStr); ok && x.alts != nil {
		if b, ok := sub.(string); ok {
			r := False
			for _, a := range x.alts {
				if strings.Contains(a.s, b) {
					r = p.c.Or(r, a.c)
				}
			}
			return r
		}
		s = p.pickAlt(x)
	}
	sb := p.fixLen(sub)
	x := p.sym(s)
	r := False
	for i := 0; i+len(sb) <= len(x.b); i++ {
		r = p.c.Or(r, p.matchAt(x, sb, i))
	}
	return r
}

// asciiFold is c|0x20 for letters.
func (p *Path) asciiFold(t *Term) *Term {
	if t.op == OpConst {
		if t.k >= 'A' && t.k <= 'Z' {
			return K(t.k+32, 8)
		}
		return t
	}
	up := p.c.And(p.c.Ule(K('A', 8), t), p.c.Ule(t, K('Z', 8)))
	return p.c.Ite(up, p.c.Bin(OpBOr, t, K(0x20, 8)), t)
}

func (p *Path) allASCII(b []*Term) *Term {
	r := True
	for _, t := range b {
		r = p.c.And(r, p.c.Ult(t, K(0x80, 8)))
	}
	return r
}

func (p *Path) intern(fnames []string, f intrinsic) {
	for _, n := range fnames {
		reg(n, f)
	}
}

func init() {
	// ---- fmt
	reg("fmt.Sprintf", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return p.sprintf(fr, a[0], p.slice(a[1]))
	})
	spr := func(ln bool) intrinsic {
		return func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			var r Value = ""
			prevStr := true
			for i, x := range p.slice(a[0]) {
				_, isS := x.(Iface).v.(string)
				_, isY := x.(Iface).v.(*SymStr)
				str := isS || isY
				if i > 0 && (ln || !str && !prevStr) {
					r = p.strConcat(r, " ")
				}
				prevStr = str
				r = p.strConcat(r, p.fmtValue(fr, 'v', "", x))
			}
			if ln {
				r = p.strConcat(r, "\n")
			}
			return r
		}
	}
	reg("fmt.Sprint", spr(false))
	reg("fmt.Sprintln", spr(true))
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return Tuple{K(0, 64), Iface{}} })
	}
	for _, n := range []string{"log.Println", "log.Printf", "log.Print", "(*log.Logger).Println", "(*log.Logger).Printf", "(*log.Logger).Print"} {
		reg(n, noop)
	}
	reg(zz+"models.sprintf", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return p.sprintf(fr, a[0], p.slice(a[1]))
	})

	// ---- errors
	reg("errors.As", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		err, tgt := a[0].(Iface), a[1].(Iface)
		if tgt.t == nil {
			p.panicStr("errors: target cannot be nil")
		}
		pt := tgt.t.Underlying().(*types.Pointer)
		et := pt.Elem()
		var walk func(e Iface) bool
		walk = func(e Iface) bool {
			for e.t != nil {
				ok := false
				if it, is := et.Underlying().(*types.Interface); is {
					ok = p.w.e.world.implements(e.t, it)
					if ok {
						p.store(tgt.v, e)
					}
				} else if types.Identical(e.t, et) {
					ok = true
					p.store(tgt.v, e.v)
				}
				if ok {
					return true
				}
				if m := p.w.e.world.methodByName(e.t, "As"); m != nil && m.Signature.Params().Len() == 1 {
					v, _ := p.invoke(fr, e, "As", tgt)
					if p.branch(v.(*Term)) {
						return true
					}
				}
				m := p.w.e.world.methodByName(e.t, "Unwrap")
				if m == nil {
					return false
				}
				v, _ := p.invoke(fr, e, "Unwrap")
				switch v := v.(type) {
				case Iface:
					e = v
				case []Value:
					for _, x := range v {
						if walk(x.(Iface)) {
							return true
						}
					}
					return false
				default:
					return false
				}
			}
			return false
		}
		return KB(walk(err))
	})

	// ---- strings / bytealg
	reg("internal/bytealg.IndexByteString", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return p.indexByte(a[0], a[1].(*Term)) })
	reg("internal/bytealg.IndexByte", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return p.indexByte(p.bytesStr(a[0]), a[1].(*Term))
	})
	reg("strings.IndexByte", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return p.indexByte(a[0], a[1].(*Term)) })
	idx := func(p *Path, s, sub Value) Value {
		if x, ok := s.(*SymStr); ok && x.alts != nil {
			s = p.pickAlt(x)
		}
		if x, ok := s.(string); ok {
			if y, ok := sub.(string); ok {
				return K(uint64(int64(strings.Index(x, y))), 64)
			}
		}
		sb := p.fixLen(sub)
		x := p.sym(s)
		if len(sb) == 0 {
			return K(0, 64)
		}
		for i := 0; i+len(sb) <= len(x.b); i++ {
			if p.branch(p.matchAt(x, sb, i)) {
				return K(uint64(i), 64)
			}
		}
		return K(^uint64(0), 64)
	}
	reg("strings.Index", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return idx(p, a[0], a[1]) })
	reg("bytes.Index", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return idx(p, p.bytesStr(a[0]), p.bytesStr(a[1]))
	})
	reg("internal/stringslite.Index", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return idx(p, a[0], a[1]) })
	reg("internal/bytealg.IndexString", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return idx(p, a[0], a[1]) })
	reg("strings.Contains", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return p.strContains(a[0], a[1]) })
	cnt := func(p *Path, s Value, b *Term) Value {
		if x, ok := s.(*SymStr); ok && x.alts != nil {
			s = p.pickAlt(x)
		}
		x := p.sym(s)
		r := K(0, 64)
		for i, t := range x.b {
			c := p.c.And(p.c.Ult(K(uint64(i), 64), p.known(x.n)), p.c.Eq(t, b))
			r = p.c.Bin(OpAdd, r, p.c.Ite(c, K(1, 64), K(0, 64)))
		}
		return r
	}
	reg("internal/bytealg.CountString", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return cnt(p, a[0], a[1].(*Term)) })
	reg("internal/bytealg.Count", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return cnt(p, p.bytesStr(a[0]), a[1].(*Term))
	})
	beq := func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return p.strEq(p.bytesStr(a[0]), p.bytesStr(a[1]))
	}
	reg("bytes.Equal", beq)
	reg("internal/bytealg.Equal", beq)
	cmp := func(p *Path, x, y Value) Value {
		return p.c.Ite(p.strEq(x, y), K(0, 64), p.c.Ite(p.strLess(x, y), K(^uint64(0), 64), K(1, 64)))
	}
	reg("internal/bytealg.Compare", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return cmp(p, p.bytesStr(a[0]), p.bytesStr(a[1]))
	})
	reg("bytes.Compare", intrinsics["internal/bytealg.Compare"])
	reg("internal/bytealg.CompareString", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return cmp(p, a[0], a[1]) })
	reg("runtime.cmpstring", intrinsics["internal/bytealg.CompareString"])
	reg("strings.Compare", intrinsics["internal/bytealg.CompareString"])
	reg("internal/bytealg.MakeNoZero", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		n := p.concretize(a[0].(*Term), "buffer size")
		r := make([]Value, n)
		for i := range r {
			r[i] = K(0, 8)
		}
		return r
	})
	reg("strings.HasPrefix", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if q, ok := a[1].(string); ok {
				return KB(strings.HasPrefix(s, q))
			}
		}
		if x, ok := a[0].(*SymStr); ok && x.alts != nil {
			if q, ok := a[1].(string); ok {
				r := False
				for _, al := range x.alts {
					if strings.HasPrefix(al.s, q) {
						r = p.c.Or(r, al.c)
					}
				}
				return r
			}
		}
		return p.matchAt(p.sym(a[0]), p.fixLen(a[1]), 0)
	})
	reg("strings.HasSuffix", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if q, ok := a[1].(string); ok {
				return KB(strings.HasSuffix(s, q))
			}
		}
		if x, ok := a[0].(*SymStr); ok && x.alts != nil {
			if q, ok := a[1].(string); ok {
				r := False
				for _, al := range x.alts {
					if strings.HasSuffix(al.s, q) {
						r = p.c.Or(r, al.c)
					}
				}
				return r
			}
		}
		b, q := p.fixLen(a[0]), p.fixLen(a[1])
		if len(q) > len(b) {
			return False
		}
		return p.eqBytes(b[len(b)-len(q):], q)
	})
	reg("strings.EqualFold", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		x, xc := a[0].(string)
		y, yc := a[1].(string)
		if xc && yc {
			return KB(strings.EqualFold(x, y))
		}
		for k := 0; k < 2; k++ {
			s, ok := a[k].(*SymStr)
			if !ok || s.alts == nil {
				continue
			}
			o := a[1-k]
			if os, ok := o.(string); ok {
				r := False
				for _, al := range s.alts {
					if strings.EqualFold(al.s, os) {
						r = p.c.Or(r, al.c)
					}
				}
				return r
			}
			if os, ok := o.(*SymStr); ok && os.alts != nil {
				r := False
				for _, al := range s.alts {
					for _, bl := range os.alts {
						if strings.EqualFold(al.s, bl.s) {
							r = p.c.Or(r, p.c.And(al.c, bl.c))
						}
					}
				}
				return r
			}
		}
		sx, sy := p.sym(a[0]), p.sym(a[1])
		if p.branch(p.c.And(p.allASCII(sx.b), p.allASCII(sy.b))) {
			r := p.c.Eq(p.known(sx.n), p.known(sy.n))
			n := min(len(sx.b), len(sy.b))
			for i := 0; i < n; i++ {
				in := p.c.Ult(K(uint64(i), 64), p.known(sx.n))
				r = p.c.And(r, p.c.Implies(in, p.c.Eq(p.asciiFold(sx.b[i]), p.asciiFold(sy.b[i]))))
			}
			if len(sx.b) > n {
				r = p.c.And(r, p.c.Ule(p.known(sx.n), K(uint64(n), 64)))
			}
			if len(sy.b) > n {
				r = p.c.And(r, p.c.Ule(p.known(sy.n), K(uint64(n), 64)))
			}
			return r
		}
		return p.callBody(fr, fn, a)
	})
	fold := func(lo, hi uint64, real func(string) string) intrinsic {
		return func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			switch s := a[0].(type) {
			case string:
				return real(s)
			case *SymStr:
				if s.alts != nil {
					return p.mapAlts(s, real)
				}
				if p.branch(p.allASCII(s.b)) {
					out := make([]*Term, len(s.b))
					for i, t := range s.b {
						in := p.c.And(p.c.Ule(K(lo, 8), t), p.c.Ule(t, K(hi, 8)))
						out[i] = p.c.Ite(in, p.c.Bin(OpBXor, t, K(0x20, 8)), t)
					}
					return mkStr(p.known(s.n), out)
				}
			}
			return p.callBody(fr, fn, a)
		}
	}
	reg("strings.ToLower", fold('A', 'Z', strings.ToLower))
	reg("strings.ToUpper", fold('a', 'z', strings.ToUpper))
	reg("strings.Join", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		var r Value = ""
		for i, x := range p.slice(a[0]) {
			if i > 0 {
				r = p.strConcat(r, a[1])
			}
			r = p.strConcat(r, x)
		}
		return r
	})
	for _, n := range []string{"strings.Fields", "strings.Split", "strings.SplitN", "strings.TrimSpace", "strings.Trim", "strings.TrimPrefix", "strings.TrimSuffix",
		"strings.TrimLeft", "strings.TrimRight", "strings.LastIndex", "strings.LastIndexByte", "strings.Count", "strings.Cut", "strings.Replace", "strings.ReplaceAll", "strings.IndexAny", "strings.ContainsAny",
		"strings.ContainsRune", "strings.IndexRune", "net/url.Parse", "net/url.ParseRequestURI", "net/url.ParseQuery", "net/url.QueryEscape", "net/url.QueryUnescape", "strconv.Atoi", "strconv.ParseInt",
		"unicode/utf8.ValidString", "strings.FieldsFunc"} {
		reg(n, altFirst)
	}
	reg("unicode/utf8.RuneCountInString", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return K64(int64(utf8.RuneCountInString(s)))
		}
		if s := a[0].(*SymStr); s.alts != nil {
			return K64(int64(utf8.RuneCountInString(p.pickAlt(s))))
		}
		return p.runeCount(a[0])
	})
	reg("(*strings.Builder).String", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		c := a[0].(*Value)
		if c == nil {
			p.nilDeref()
		}
		return p.bytesStr((*c).(StructV)[1])
	})
	reg("(*strings.Builder).Grow", noop)
	reg("(*strings.Builder).copyCheck", noop)
	reg("(*bytes.Buffer).String", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		c := a[0].(*Value)
		if c == nil {
			return "<nil>"
		}
		st := (*c).(StructV)
		s := p.bytesStr(st[0])
		off := st[1].(*Term)
		if off.op == OpConst && off.k == 0 {
			return s
		}
		return p.strSlice(s, off, p.strLen(s))
	})
	reg("internal/abi.NoEscape", ident)
	reg("internal/abi.Escape", ident)
	reg("strings.Clone", ident)
	reg("bytes.Clone", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		if isNilVal(a[0]) {
			return a[0]
		}
		return p.strBytes(p.bytesStr(a[0]))
	})
	// ---- crypto/subtle
	cteq := func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return p.c.Ite(p.strEq(p.bytesStr(a[0]), p.bytesStr(a[1])), K(1, 64), K(0, 64))
	}
	reg("crypto/subtle.ConstantTimeCompare", cteq)
	reg("crypto/internal/fips140/subtle.ConstantTimeCompare", cteq)
	reg("crypto/hmac.Equal", beq)

	// ---- hashing: collision-free applications
	sum := func(name string, size int) intrinsic {
		return func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			return ArrayV(values(p.apply(name, size, p.bytesStr(a[0]))))
		}
	}
	reg("crypto/sha256.Sum256", sum("sha256", 32))
	reg("crypto/sha512.Sum512", sum("sha512", 64))
	reg("crypto/sha512.Sum384", sum("sha384", 48))
	reg("crypto/sha1.Sum", sum("sha1", 20))
	reg("golang.org/x/crypto/blake2b.Sum256", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return ArrayV(values(p.apply("blake2b", 32, "", p.bytesStr(a[0]))))
	})
	reg("golang.org/x/crypto/blake2b.Sum512", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return ArrayV(values(p.apply("blake2b", 64, "", p.bytesStr(a[0]))))
	})

	// ---- encodings
	reg("encoding/hex.EncodeToString", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return p.hexStr(p.bytesStr(a[0]))
	})
	reg("(*encoding/base64.Encoding).EncodeToString", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		s := p.bytesStr(a[1])
		if _, ok := s.(string); ok {
			return p.callBody(fr, fn, a)
		}
		enc := (*(a[0].(*Value))).(StructV)
		// fields: encode [64]uint8, decodeMap, padChar rune, strict bool
		tbl := enc[0].(ArrayV)
		op := OpB64Dig
		switch tbl[62].(*Term).k {
		case '-':
		case '+':
			op = OpB64Std
		default:
			panic(p.unsupported("base64 alphabet"))
		}
		var pad int64 = -1
		for _, f := range enc[1:] {
			if t, ok := f.(*Term); ok && t.w == 32 {
				pad = sext64(t.k, 32)
			}
		}
		return p.b64(op, pad, p.fixLen(s))
	})

	// ---- runtime and friends
	for _, n := range []string{"runtime.SetFinalizer", "runtime.KeepAlive", "runtime.GC", "runtime.Gosched", "internal/godebug.setUpdate", "internal/godebug.registerMetric", "internal/godebug.setNewIncNonDefault",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write"} {
		reg(n, noop)
	}
	reg("(*internal/godebug.Setting).Value", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return "" })
	reg("(*internal/godebug.Setting).IncNonDefault", noop)
	reg("internal/godebug.New", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		var c Value = zero(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
		return &c
	})
	reg("os.Getenv", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return "" })
	reg("os.LookupEnv", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return Tuple{"", False} })

	// ---- atomics
	ld := func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return p.load(a[0]) }
	st := func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { p.store(a[0], a[1]); return nil }
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg("sync/atomic.Load"+ty, ld)
		reg("sync/atomic.Store"+ty, st)
		reg("sync/atomic.Add"+ty, func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			v := p.c.Bin(OpAdd, p.load(a[0]).(*Term), a[1].(*Term))
			p.store(a[0], v)
			return v
		})
		reg("sync/atomic.Swap"+ty, func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			v := p.load(a[0])
			p.store(a[0], a[1])
			return v
		})
		reg("sync/atomic.CompareAndSwap"+ty, func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			v := p.load(a[0])
			var eq *Term
			if t, ok := v.(*Term); ok {
				eq = p.c.Eq(t, a[1].(*Term))
			} else {
				eq = p.equals(nil, v, a[1])
			}
			if p.branch(eq) {
				p.store(a[0], a[2])
				return True
			}
			return False
		})
	}
	// generic and typed wrappers run on the cell directly
	fld := func(p *Path, v Value) *Value {
		c, ok := v.(*Value)
		if !ok || c == nil {
			p.nilDeref()
		}
		s := (*c).(StructV)
		return &s[len(s)-1]
	}
	reg("(*sync/atomic.Value).Load", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return *fld(p, a[0]) })
	reg("(*sync/atomic.Value).Store", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { *fld(p, a[0]) = a[1]; return nil })
	reg("(*sync/atomic.Pointer[T]).Load", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		if u, ok := (*fld(p, a[0])).(UnsafeP); ok {
			if u.v == nil {
				return (*Value)(nil)
			}
			return u.v
		}
		return (*Value)(nil)
	})
	reg("(*sync/atomic.Pointer[T]).Store", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		*fld(p, a[0]) = UnsafeP{a[1]}
		return nil
	})
	reg("(*sync/atomic.Pointer[T]).CompareAndSwap", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		c := fld(p, a[0])
		cur, _ := (*c).(UnsafeP)
		if cur.v == a[1] || isNilVal(cur.v) && isNilVal(a[1]) {
			*c = UnsafeP{a[2]}
			return True
		}
		return False
	})

	// ---- time
	reg("time.Now", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return p.timeNow() })
	reg("time.runtimeNow", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return K(0, 64) })
	reg("time.runtimeNano", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return K(0, 64) })
	reg("time.Since", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		sub := p.w.e.world.methodByName(p.w.e.world.typeOf("time", "Time"), "Sub")
		return p.call(fr, sub, []Value{p.timeNow(), a[0]}, nil)
	})
	reg("time.Until", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		sub := p.w.e.world.methodByName(p.w.e.world.typeOf("time", "Time"), "Sub")
		return p.call(fr, sub, []Value{a[0], p.timeNow()}, nil)
	})
	reg("time.Sleep", noop)
	reg("(time.Time).String", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return "<time>" })
	reg("(time.Time).Local", ident)
	reg("(*time.Location).get", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		g := p.w.e.world.pkgs["time"].Var("utcLoc")
		return p.global(g)
	})
}

const unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400

func (p *Path) timeNow() Value {
	return StructV{p.nowNs, p.c.Bin(OpAdd, p.now, K64(unixToInternal)), (*Value)(nil)}
}

// b64 encodes bytes with the given digit operator and padding character.
func (p *Path) b64(op Op, pad int64, b []*Term) Value {
	c := p.c
	var out []*Term
	for i := 0; i < len(b); i += 3 {
		n := min(3, len(b)-i)
		var acc *Term
		for j := 0; j < 3; j++ {
			t := K(0, 8)
			if j < n {
				t = b[i+j]
			}
			if acc == nil {
				acc = t
			} else {
				acc = c.Concat(acc, t)
			}
		}
		for j := 0; j < 4; j++ {
			if j <= n {
				out = append(out, c.Dig(op, c.Extract(acc, uint64(18-6*j), 6)))
			} else if pad >= 0 {
				out = append(out, K(uint64(pad), 8))
			}
		}
	}
	return mkFixed(out)
}
