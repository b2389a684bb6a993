package main

import (
	"crypto/elliptic"
	"crypto/sha512"
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Elliptic curve keys are concrete; an ECDSA signature is an ideal one: a function of the
// public key and of the digest that nothing but the signing call yields.

var curveMu sync.Mutex
var curveCells = map[*ssa.Global]Iface{}

var curveVars = map[string]elliptic.Curve{"p224": elliptic.P224(), "p256": elliptic.P256(), "p384": elliptic.P384(), "p521": elliptic.P521()}

func bigVal(x *big.Int) Value {
	bits := x.Bits()
	abs := make([]Value, len(bits))
	for i, b := range bits {
		abs[i] = K(uint64(b), 64)
	}
	var cell Value = StructV{KB(x.Sign() < 0), abs}
	return &cell
}

// bigOf reads a concrete big.Int; nil for a nil pointer.
func (p *Path) bigOf(v Value) *big.Int {
	c, _ := v.(*Value)
	if c == nil {
		return nil
	}
	s := (*c).(StructV)
	var bits []big.Word
	for _, w := range p.slice(s[1]) {
		t := p.known(w.(*Term))
		if t.op != OpConst {
			panic(p.unsupported("symbolic big integer"))
		}
		bits = append(bits, big.Word(t.k))
	}
	r := new(big.Int).SetBits(bits)
	if n := s[0].(*Term); n.op == OpConst && n.k != 0 {
		r.Neg(r)
	}
	return r
}

func (p *Path) curve(name string) Value {
	g := p.w.e.world.pkgs["crypto/elliptic"].Var(name)
	if g == nil {
		panic(p.unsupported("no curve " + name))
	}
	curveMu.Lock()
	defer curveMu.Unlock()
	if v, ok := curveCells[g]; ok {
		return v
	}
	pt := deref(g.Type())
	st := deref(pt).Underlying().(*types.Struct)
	sv := zero(deref(pt)).(StructV)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() != "params" {
			continue
		}
		ct := deref(st.Field(i).Type())
		cv := zero(ct).(StructV)
		cs := ct.Underlying().(*types.Struct)
		par := reflect.ValueOf(curveVars[name].Params()).Elem()
		for j := 0; j < cs.NumFields(); j++ {
			switch f := par.FieldByName(cs.Field(j).Name()).Interface().(type) {
			case *big.Int:
				cv[j] = bigVal(f)
			case int:
				cv[j] = K(uint64(f), 64)
			case string:
				cv[j] = f
			}
		}
		var cell Value = cv
		sv[i] = &cell
	}
	var cell Value = sv
	r := Iface{pt, &cell}
	curveCells[g] = r
	return r
}

// curveOf names the curve of a key.
func (p *Path) curveOf(v Value) elliptic.Curve {
	x, _ := v.(Iface)
	curveMu.Lock()
	defer curveMu.Unlock()
	for g, c := range curveCells {
		if c.v == x.v {
			return curveVars[g.Name()]
		}
	}
	return nil
}

// idealSig is the signature of a digest under the key with public point (x, y).
func (p *Path) idealSig(c elliptic.Curve, x, y *big.Int, digest string) (r, s *big.Int) {
	f := func(tag string) *big.Int {
		h := sha512.Sum512([]byte(fmt.Sprintf("%s|%s|%s|%s|%x", tag, c.Params().Name, x, y, digest)))
		v := new(big.Int).SetBytes(h[:(c.Params().BitSize+7)/8-1])
		return v.Add(v, big.NewInt(1))
	}
	return f("r"), f("s")
}

func (p *Path) keyFields(v Value) (elliptic.Curve, *big.Int, *big.Int) {
	c, _ := v.(*Value)
	if c == nil {
		p.nilDeref()
	}
	s := (*c).(StructV)
	return p.curveOf(s[0]), p.bigOf(s[1]), p.bigOf(s[2])
}

func (p *Path) concDigest(v Value) string {
	s, ok := p.bytesStr(v).(string)
	if !ok {
		panic(p.unsupported("signature over a symbolic digest"))
	}
	return s
}

// symSig is the ideal signature of a symbolic digest (nil for a concrete one): two
// integers of full length, an injective function of the key and the digest.
func (p *Path) symSig(c elliptic.Curve, x, y *big.Int, digest Value) [][]*Term {
	d := p.bytesStr(digest)
	if _, ok := d.(string); ok {
		return nil
	}
	n := (c.Params().BitSize + 7) / 8
	var r [][]*Term
	for _, tag := range []string{"r", "s"} {
		b := append([]*Term{K(1, 8)}, p.apply("ecdsa:"+tag+":"+c.Params().Name, n-1, x.Text(16), d)...)
		r = append(r, p.wordsOf(b))
	}
	return r
}

func (p *Path) newBig(ws []*Term) Value {
	c := new(Value)
	p.setBig(c, ws)
	return c
}

func (p *Path) eqWords(a, b []*Term) *Term {
	if len(a) < len(b) {
		a, b = b, a
	}
	r := True
	for i, w := range a {
		if i < len(b) {
			r = p.c.And(r, p.c.Eq(w, b[i]))
		} else {
			r = p.c.And(r, p.c.Eq(w, K(0, 64)))
		}
	}
	return r
}

func init() {
	for _, n := range []string{"224", "256", "384", "521"} {
		n := n
		reg("crypto/elliptic.P"+n, func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return p.curve("p" + n) })
	}
	reg("(*crypto/elliptic.nistCurve[Point]).IsOnCurve", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := p.bigOf(a[1]), p.bigOf(a[2])
		if x == nil || y == nil {
			p.nilDeref()
		}
		c := p.curveOf(Iface{nil, a[0]})
		if c == nil {
			panic(p.unsupported("unknown curve"))
		}
		if x.Sign() < 0 || y.Sign() < 0 || x.BitLen() > c.Params().BitSize || y.BitLen() > c.Params().BitSize {
			return False
		}
		return KB(c.IsOnCurve(x, y))
	})
	reg("crypto/ecdsa.Sign", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		k, _ := a[1].(*Value)
		if k == nil {
			p.nilDeref()
		}
		pub := &(*k).(StructV)[0]
		c, x, y := p.keyFields(pub)
		if c == nil {
			p.nilDeref()
		}
		if ws := p.symSig(c, x, y, a[2]); ws != nil {
			return Tuple{p.newBig(ws[0]), p.newBig(ws[1]), Iface{}}
		}
		r, s := p.idealSig(c, x, y, p.concDigest(a[2]))
		return Tuple{bigVal(r), bigVal(s), Iface{}}
	})
	reg("crypto/ecdsa.Verify", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		c, x, y := p.keyFields(a[0])
		if c == nil {
			p.nilDeref()
		}
		if ws := p.symSig(c, x, y, a[1]); ws != nil {
			return p.c.And(p.eqWords(ws[0], p.bigWords(a[2])), p.eqWords(ws[1], p.bigWords(a[3])))
		}
		r, s := p.idealSig(c, x, y, p.concDigest(a[1]))
		return KB(r.Cmp(p.bigOf(a[2])) == 0 && s.Cmp(p.bigOf(a[3])) == 0)
	})
	reg("reflect.TypeOf", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return Iface{types.NewPointer(p.w.e.world.typeOf("reflect", "rtype")), &Native{"rtype", a[0].(Iface).t}}
	})
	reg("internal/reflectlite.TypeOf", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return Iface{p.w.e.world.typeOf("internal/reflectlite", "rtype"), &Native{"rtype", a[0].(Iface).t}}
	})
	reg("(internal/reflectlite.rtype).Comparable", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		t, _ := a[0].(*Native).v.(types.Type)
		return KB(t != nil && types.Comparable(t))
	})
	elem := func(p *Path, a Value) Value {
		t, _ := a.(*Native).v.(types.Type)
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		case *types.Map:
			t = u.Elem()
		default:
			panic(p.unsupported("reflect.Type.Elem"))
		}
		return &Native{"rtype", t}
	}
	reg("(*reflect.rtype).Elem", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return Iface{types.NewPointer(p.w.e.world.typeOf("reflect", "rtype")), elem(p, a[0])}
	})
	reg("(internal/reflectlite.rtype).Elem", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return Iface{p.w.e.world.typeOf("internal/reflectlite", "rtype"), elem(p, a[0])}
	})
	reg("reflect.Indirect", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		n, ok := a[0].(*Native)
		if !ok || n.kind != "reflect" {
			panic(p.unsupported("reflect.Value"))
		}
		x := n.v.(Iface)
		if x.t == nil {
			return n
		}
		if pt, ok := x.t.Underlying().(*types.Pointer); ok {
			c, _ := x.v.(*Value)
			if c == nil {
				return &Native{"reflect", Iface{}}
			}
			return &Native{"reflect", Iface{pt.Elem(), *c}}
		}
		return n
	})
}
