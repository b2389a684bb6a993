package main

import (
	"encoding/base64"
	"go/constant"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Protocol messages as JSON documents, driven by the struct tags of the generated types.

type pfield struct {
	i        int
	name     string // proto name
	json     string
	typ      types.Type
	presence bool // explicit presence: unset is told from zero
	oneof    bool
}

func protoFields(t types.Type) []pfield {
	st := t.Underlying().(*types.Struct)
	var r []pfield
	for i := 0; i < st.NumFields(); i++ {
		tag := reflect.StructTag(st.Tag(i))
		if _, ok := tag.Lookup("protobuf_oneof"); ok {
			r = append(r, pfield{i: i, typ: st.Field(i).Type(), oneof: true})
			continue
		}
		pt, ok := tag.Lookup("protobuf")
		if !ok {
			continue
		}
		f := pfield{i: i, typ: st.Field(i).Type()}
		for _, s := range strings.Split(pt, ",") {
			if n, ok := strings.CutPrefix(s, "name="); ok {
				f.name = n
			}
			if n, ok := strings.CutPrefix(s, "json="); ok {
				f.json = n
			}
		}
		if f.json == "" {
			f.json = f.name
		}
		_, f.presence = f.typ.Underlying().(*types.Pointer)
		r = append(r, f)
	}
	return r
}

func isMessage(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = pt.Elem().Underlying().(*types.Struct)
	return ok
}

func enumNames(t types.Type) map[int64]string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	sc := n.Obj().Pkg().Scope()
	r := map[int64]string{}
	for _, name := range sc.Names() {
		c, ok := sc.Lookup(name).(*types.Const)
		if !ok || !types.Identical(c.Type(), t) {
			continue
		}
		if v, ok := constant.Int64Val(c.Val()); ok {
			r[v] = strings.TrimPrefix(name, n.Obj().Name()+"_")
		}
	}
	return r
}

type popts struct{ emit, names, nums, discard bool }

func (p *Path) protoOpts(fn *ssa.Function, v Value) popts {
	var o popts
	sv, ok := v.(StructV)
	if !ok {
		return o
	}
	st := fn.Signature.Recv().Type().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		t, ok := sv[i].(*Term)
		if !ok || t.w != 0 {
			continue
		}
		on := t == True
		if t != True && t != False {
			panic(p.unsupported("symbolic protojson option"))
		}
		switch st.Field(i).Name() {
		case "EmitUnpopulated", "EmitDefaultValues":
			o.emit = o.emit || on
		case "UseProtoNames":
			o.names = on
		case "UseEnumNumbers":
			o.nums = on
		case "DiscardUnknown":
			o.discard = on
		}
	}
	return o
}

// pmsg builds the tree of the message at c.
func (p *Path) pmsg(t types.Type, c *Value, o popts) *jnode {
	n := &jnode{k: 'o'}
	sv := (*c).(StructV)
	add := func(f pfield, v Value) {
		name := f.json
		if o.names {
			name = f.name
		}
		x, unset := p.pval(f.typ, v, o)
		jf := jfield{name: name, v: x}
		if unset != False {
			if f.presence && !isMessage(f.typ) {
				return
			}
			if !o.emit {
				if unset == True {
					return
				}
				jf.cond = true
			}
		}
		n.f = append(n.f, jf)
	}
	for _, f := range protoFields(t) {
		if !f.oneof {
			add(f, sv[f.i])
			continue
		}
		x, _ := sv[f.i].(Iface)
		if x.t == nil || isNilVal(x.v) {
			continue
		}
		wt := deref(x.t)
		wc := x.v.(*Value)
		for _, g := range protoFields(wt) {
			y, _ := p.pval(g.typ, (*wc).(StructV)[g.i], o)
			name := g.json
			if o.names {
				name = g.name
			}
			n.f = append(n.f, jfield{name: name, v: y})
		}
	}
	return n
}

// pval builds the tree of a field and the condition under which it is unset.
func (p *Path) pval(t types.Type, v Value, o popts) (*jnode, *Term) {
	v = p.force(v)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		c, _ := v.(*Value)
		if isMessage(t) {
			if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "google.golang.org/") {
				panic(p.unsupported("JSON form of " + t.String()))
			}
			if c == nil {
				return jnull, True
			}
			return p.pmsg(u.Elem(), c, o), False
		}
		if c == nil {
			return jnull, True
		}
		n, _ := p.pval(u.Elem(), *c, o)
		return n, False
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			raw := append([]Value{}, p.slice(v)...)
			return &jnode{k: 's', raw: raw}, KB(len(raw) == 0)
		}
		n := &jnode{k: 'a'}
		for _, x := range p.slice(v) {
			y, _ := p.pval(u.Elem(), x, o)
			n.a = append(n.a, y)
		}
		return n, KB(len(n.a) == 0)
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			n := &jnode{k: 's', s: v}
			return n, n.zeroTerm(p)
		case u.Info()&types.IsBoolean != 0:
			b := p.known(v.(*Term))
			return &jnode{k: 't', b: b}, p.c.Not(b)
		case u.Info()&types.IsInteger != 0:
			x := p.known(v.(*Term))
			if _, named := types.Unalias(t).(*types.Named); named {
				k := int64(int32(p.concretize(x, "enum")))
				if s, ok := enumNames(t)[k]; ok && !o.nums {
					return &jnode{k: 's', s: s}, KB(k == 0)
				}
				return &jnode{k: '#', num: K64(k), sgn: true}, KB(k == 0)
			}
			n := &jnode{k: '#', sgn: isSigned(t)}
			if n.sgn {
				n.num = p.c.Sext(x, 64)
			} else {
				n.num = p.c.Zext(x, 64)
			}
			if intWidth(u) == 64 {
				n.k = 's' // 64-bit numbers are strings
				if n.num.op == OpConst {
					s := strconv.FormatUint(n.num.k, 10)
					if n.sgn {
						s = strconv.FormatInt(int64(n.num.k), 10)
					}
					n = &jnode{k: 's', s: s}
				}
			}
			return n, p.c.Eq(x, K(0, x.w))
		}
	}
	panic(p.unsupported("JSON form of a message field of type " + t.String()))
}

func (p *Path) pdec(n *jnode, t types.Type, c *Value, o popts) Value {
	if n.k != 'o' {
		return p.mkErr("proto: syntax error: unexpected token")
	}
	sv := (*c).(StructV)
	fs := protoFields(t)
	seen := map[string]bool{}
	set := map[int]bool{}
	for _, jf := range n.f {
		var f *pfield
		var wrap types.Type
		for i := range fs {
			if fs[i].oneof {
				for _, w := range p.oneofWrappers(t, fs[i].typ) {
					for _, g := range protoFields(w) {
						if g.json == jf.name || g.name == jf.name {
							g := g
							g.oneof = true
							f, wrap = &g, w
							f.i = fs[i].i
						}
					}
				}
				continue
			}
			if fs[i].json == jf.name || fs[i].name == jf.name {
				f = &fs[i]
				break
			}
		}
		if f == nil {
			if !o.discard && !(jf.cond && p.branch(jf.v.zeroTerm(p))) {
				return p.mkErr("proto: unknown field " + strconv.Quote(jf.name))
			}
			continue
		}
		if seen[f.name] {
			return p.mkErr("proto: duplicate field " + strconv.Quote(jf.name))
		}
		seen[f.name] = true
		if jf.v.k == 'n' {
			continue
		}
		if jf.cond && (f.presence || wrap != nil) && p.branch(jf.v.zeroTerm(p)) {
			continue
		}
		if wrap != nil {
			if set[f.i] {
				return p.mkErr("proto: oneof is already set")
			}
			set[f.i] = true
			wc := new(Value)
			*wc = zero(wrap)
			if e := p.pfieldDec(jf.v, f.typ, &(*wc).(StructV)[0], o); e != nil {
				return e
			}
			storeVal(&sv[f.i], Iface{types.NewPointer(wrap), wc})
			continue
		}
		if e := p.pfieldDec(jf.v, f.typ, &sv[f.i], o); e != nil {
			return e
		}
	}
	return nil
}

// oneofWrappers lists the wrapper types of a oneof interface.
func (p *Path) oneofWrappers(msg, it types.Type) []types.Type {
	n, ok := types.Unalias(it).(*types.Named)
	if !ok {
		return nil
	}
	iface := n.Underlying().(*types.Interface)
	sc := n.Obj().Pkg().Scope()
	var r []types.Type
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		if _, ok := tn.Type().Underlying().(*types.Struct); ok && types.Implements(types.NewPointer(tn.Type()), iface) {
			r = append(r, tn.Type())
		}
	}
	return r
}

func (p *Path) pfieldDec(n *jnode, t types.Type, c *Value, o popts) Value {
	bad := func() Value { return p.mkErr("proto: invalid value for " + t.String()) }
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		nc := new(Value)
		*nc = zero(u.Elem())
		var e Value
		if isMessage(t) {
			if nm, ok := types.Unalias(u.Elem()).(*types.Named); ok && nm.Obj().Pkg() != nil && strings.HasPrefix(nm.Obj().Pkg().Path(), "google.golang.org/") {
				panic(p.unsupported("JSON form of " + t.String()))
			}
			e = p.pdec(n, u.Elem(), nc, o)
		} else {
			e = p.pfieldDec(n, u.Elem(), nc, o)
		}
		if e == nil {
			storeVal(c, nc)
		}
		return e
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			if n.k != 's' || n.num != nil {
				return bad()
			}
			if n.raw != nil {
				storeVal(c, append([]Value{}, n.raw...))
				return nil
			}
			s, ok := n.s.(string)
			if !ok {
				panic(p.unsupported("base64 decoding of a symbolic JSON string"))
			}
			enc := base64.StdEncoding
			if strings.ContainsAny(s, "-_") {
				enc = base64.URLEncoding
			}
			if len(s)%4 != 0 {
				enc = enc.WithPadding(base64.NoPadding)
			}
			d, err := enc.DecodeString(s)
			if err != nil {
				return bad()
			}
			storeVal(c, p.strBytes(string(d)))
			return nil
		}
		if n.k != 'a' {
			return p.mkErr("proto: syntax error: unexpected token")
		}
		var r []Value
		for _, x := range n.a {
			if x.k == 'n' {
				return bad()
			}
			v := zero(u.Elem())
			if e := p.pfieldDec(x, u.Elem(), &v, o); e != nil {
				return e
			}
			r = append(r, v)
		}
		storeVal(c, r)
		return nil
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if n.k != 's' {
				return bad()
			}
			storeVal(c, p.jstring(n))
			return nil
		case u.Info()&types.IsBoolean != 0:
			if n.k != 't' {
				return bad()
			}
			storeVal(c, n.b)
			return nil
		case u.Info()&types.IsInteger != 0:
			if _, named := types.Unalias(t).(*types.Named); named && n.k == 's' && n.num == nil {
				s, ok := n.s.(string)
				if !ok {
					panic(p.unsupported("symbolic enum name"))
				}
				for k, name := range enumNames(t) {
					if name == s {
						storeVal(c, K(uint64(k), 32))
						return nil
					}
				}
				if o.discard {
					return nil
				}
				return bad()
			}
			x := *n
			switch {
			case n.k == '#':
			case n.k == 's' && n.num != nil:
				x.k = '#'
			case n.k == 's' && n.raw == nil:
				s, ok := n.s.(string)
				if !ok {
					panic(p.unsupported("symbolic number text"))
				}
				if s == "" || strings.TrimSpace(s) != s || !numberText(s) {
					return bad()
				}
				x = jnode{k: '#', txt: s}
			default:
				return bad()
			}
			if x.num == nil {
				x.txt = integerText(x.txt)
			}
			if e := p.jint(&x, t, u, c); e != nil {
				return bad()
			}
			return nil
		}
	}
	panic(p.unsupported("JSON form of a message field of type " + t.String()))
}

func numberText(s string) bool {
	j := &jparser{s: s}
	ok := true
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(jsyntax); !is {
					panic(r)
				}
				ok = false
			}
		}()
		n := j.value()
		ok = n.k == '#' && j.i == len(s)
	}()
	return ok
}

// integerText is the plain form of a number that is an integer in scientific or decimal form.
func integerText(s string) string {
	if !strings.ContainsAny(s, ".eE") {
		if s == "-0" {
			return "0"
		}
		return s
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || f != math.Trunc(f) || math.Abs(f) > 1<<53 {
		return s
	}
	return strconv.FormatFloat(f, 'f', 0, 64)
}

func init() {
	const pkg = "google.golang.org/protobuf/encoding/protojson"
	marshal := func(p *Path, o popts, m Iface) Value {
		if m.t == nil {
			return Tuple{p.strBytes("{}"), Iface{}}
		}
		c, ok := m.v.(*Value)
		if !ok {
			panic(p.unsupported("JSON form of " + m.t.String()))
		}
		t := deref(m.t)
		if c == nil {
			c = new(Value)
			*c = zero(t)
		}
		return Tuple{p.strBytes(p.jdoc(p.pmsg(t, c, o))), Iface{}}
	}
	unmarshal := func(p *Path, o popts, doc Value, m Iface) Value {
		c, ok := m.v.(*Value)
		if !ok || c == nil {
			panic(p.unsupported("JSON decoding into a nil message"))
		}
		t := deref(m.t)
		storeVal(c, zero(t))
		n, good := p.jparse(p.bytesStr(doc))
		if !good {
			return p.mkErr("proto: syntax error")
		}
		if e := p.pdec(n, t, c, o); e != nil {
			return e
		}
		return Iface{}
	}
	reg("("+pkg+".MarshalOptions).Marshal", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return marshal(p, p.protoOpts(fn, a[0]), a[1].(Iface))
	})
	reg(pkg+".Marshal", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return marshal(p, popts{}, a[0].(Iface))
	})
	reg("("+pkg+".UnmarshalOptions).Unmarshal", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return unmarshal(p, p.protoOpts(fn, a[0]), a[1], a[2].(Iface))
	})
	reg(pkg+".Unmarshal", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return unmarshal(p, popts{}, a[0], a[1].(Iface))
	})
}
