package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Symbolic big integers: words in little-endian order, possibly with zero words on top.
// Base 62 text is an ideal injective encoding of the value ("base62:<digits>", grounded in
// the real one); reading back what it produced yields the value, and any other text is
// evaluated digit by digit.

func (p *Path) bigWords(v Value) []*Term {
	c, _ := v.(*Value)
	if c == nil {
		p.panicStr("invalid memory address or nil pointer dereference")
	}
	s := (*c).(StructV)
	if n := s[0].(*Term); n != False {
		panic(p.unsupported("negative symbolic big integer"))
	}
	var ws []*Term
	for _, w := range p.slice(s[1]) {
		ws = append(ws, p.known(w.(*Term)))
	}
	return ws
}

func allConst(ts []*Term) bool {
	for _, t := range ts {
		if t.op != OpConst {
			return false
		}
	}
	return true
}

func (p *Path) setBig(z Value, ws []*Term) {
	if allConst(ws) {
		for len(ws) > 0 && ws[len(ws)-1].k == 0 {
			ws = ws[:len(ws)-1]
		}
	}
	abs := make([]Value, len(ws))
	for i, w := range ws {
		abs[i] = w
	}
	p.store(z, StructV{False, abs})
}

// wordsOf reads big-endian bytes.
func (p *Path) wordsOf(b []*Term) []*Term {
	for len(b) > 0 && b[0].op == OpConst && b[0].k == 0 {
		b = b[1:]
	}
	var ws []*Term
	for len(b) > 0 {
		n := max(len(b)-8, 0)
		w := b[n]
		for _, x := range b[n+1:] {
			w = p.c.Concat(w, x)
		}
		ws = append(ws, p.c.Zext(w, 64))
		b = b[:n]
	}
	return ws
}

// bytesOf are the big-endian bytes of the words.
func (p *Path) bytesOf(ws []*Term) []*Term {
	var b []*Term
	for i := len(ws) - 1; i >= 0; i-- {
		for j := 7; j >= 0; j-- {
			b = append(b, p.c.Extract(ws[i], uint64(8*j), 8))
		}
	}
	return b
}

// geConst is ws >= k.
func (p *Path) geConst(ws []*Term, k *big.Int) *Term {
	r := True // equal so far
	m := new(big.Int)
	rest := new(big.Int).Rsh(k, uint(64*len(ws)))
	if rest.Sign() > 0 {
		return False
	}
	for i := range ws {
		w := K(m.And(m.Rsh(k, uint(64*i)), new(big.Int).SetUint64(^uint64(0))).Uint64(), 64)
		r = p.c.Or(p.c.Ult(w, ws[i]), p.c.And(p.c.Eq(w, ws[i]), r))
	}
	return r
}

const digits62 = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// base62Of grounds the text function.
func base62Of(size int, data []byte) []byte {
	s := new(big.Int).SetBytes(data).Text(62)
	if len(s) < size {
		s = strings.Repeat("0", size-len(s)) + s
	}
	return []byte(s[len(s)-size:])
}

func init() {
	b := "(*math/big.Int)."
	over := func(name string, f func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value) { reg(b+name, f) }
	over("SetBytes", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		p.setBig(a[0], p.wordsOf(terms(p.slice(a[1]))))
		return a[0]
	})
	over("Text", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		if c, _ := a[0].(*Value); c == nil {
			return "<nil>"
		}
		base := int(int64(p.concretize(a[1].(*Term), "number base")))
		if neg := (*a[0].(*Value)).(StructV)[0]; neg != False || allConst(p.bigWords(a[0])) {
			return p.bigOf(a[0]).Text(base)
		}
		ws := p.bigWords(a[0])
		if base != 62 {
			panic(p.unsupported("text of a symbolic big integer in base " + strconv.Itoa(base)))
		}
		n := 1
		for k := big.NewInt(62); k.BitLen() <= 64*len(ws); k.Mul(k, big.NewInt(62)) {
			n++
		}
		for ; n > 1; n-- {
			k := new(big.Int).Exp(big.NewInt(62), big.NewInt(int64(n-1)), nil)
			if p.branch(p.geConst(ws, k)) {
				break
			}
		}
		for len(ws) > 1 && p.known(ws[len(ws)-1]).op == OpConst && p.known(ws[len(ws)-1]).k == 0 {
			ws = ws[:len(ws)-1]
		}
		bs := p.bytesOf(ws)
		arg := mkFixed(bs)
		out := p.apply(fmt.Sprintf("base62:%d", n), n, arg)
		if _, ok := arg.(string); !ok {
			for i, d := range out {
				set := digits62
				if i == 0 && n > 1 {
					set = digits62[1:]
				}
				p.axiom(p.inSet(d, set))
			}
		}
		return mkFixed(out)
	})
	over("SetString", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		base := int(int64(p.concretize(a[2].(*Term), "number base")))
		bs := p.fixLen(a[1])
		if allConst(bs) {
			x, ok := new(big.Int).SetString(mkFixed(bs).(string), base)
			if !ok {
				return Tuple{(*Value)(nil), False}
			}
			p.store(a[0], *bigVal(x).(*Value))
			return Tuple{a[0], True}
		}
		if base != 62 {
			panic(p.unsupported("symbolic big integer text in base " + strconv.Itoa(base)))
		}
		ok := True
		for _, d := range bs {
			ok = p.c.And(ok, p.inSet(d, digits62))
		}
		if !p.branch(ok) {
			if p.branch(p.inSet(bs[0], "+-")) {
				panic(p.unsupported("signed symbolic big integer text"))
			}
			return Tuple{(*Value)(nil), False}
		}
		for len(bs) > 1 && bs[0].op == OpConst && bs[0].k == '0' {
			bs = bs[1:]
		}
		if app := bs[0].app; app != nil && app.fn == fmt.Sprintf("base62:%d", len(bs)) {
			same := true
			for i, d := range bs {
				same = same && app.outs[i] == d
			}
			if same {
				p.setBig(a[0], p.wordsOf(p.fixLen(app.args[0])))
				return Tuple{a[0], True}
			}
		}
		// digit by digit, in 32-bit limbs
		limbs := []*Term{}
		top := new(big.Int)
		c := p.c
		for _, d := range bs {
			x := c.Zext(d, 64)
			v := c.Ite(c.Ule(d, K('9', 8)), c.Bin(OpSub, x, K('0', 64)), c.Ite(c.Ule(d, K('Z', 8)), c.Bin(OpSub, x, K('A'-36, 64)), c.Bin(OpSub, x, K('a'-10, 64))))
			top.Mul(top, big.NewInt(62)).Add(top, big.NewInt(61))
			carry := v
			for i := range limbs {
				s := c.Bin(OpAdd, c.Bin(OpMul, limbs[i], K(62, 64)), carry)
				limbs[i] = c.Zext(c.Extract(s, 0, 32), 64)
				carry = c.Zext(c.Extract(s, 32, 32), 64)
			}
			if top.BitLen() > 32*len(limbs) {
				limbs = append(limbs, carry)
			}
		}
		var ws []*Term
		for i := 0; i < len(limbs); i += 2 {
			w := limbs[i]
			if i+1 < len(limbs) {
				w = c.Concat(c.Extract(limbs[i+1], 0, 32), c.Extract(limbs[i], 0, 32))
			}
			ws = append(ws, w)
		}
		p.setBig(a[0], ws)
		return Tuple{a[0], True}
	})
	over("BitLen", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		r := K(0, 64)
		for i, w := range p.bigWords(a[0]) {
			l := K(0, 64)
			for j := 0; j < 64; j++ {
				if w.op == OpConst {
					if w.k>>uint(j) != 0 {
						l = K(uint64(64*i+j+1), 64)
					}
					continue
				}
				l = p.c.Ite(p.c.Ule(K(uint64(1)<<uint(j), 64), w), K(uint64(64*i+j+1), 64), l)
			}
			r = p.c.Ite(p.c.Eq(w, K(0, 64)), r, l)
		}
		return r
	})
	over("Sign", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		if neg := (*a[0].(*Value)).(StructV)[0]; neg != False {
			return K64(int64(p.bigOf(a[0]).Sign()))
		}
		z := True
		for _, w := range p.bigWords(a[0]) {
			z = p.c.And(z, p.c.Eq(w, K(0, 64)))
		}
		return p.c.Ite(z, K(0, 64), K(1, 64))
	})
	over("FillBytes", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		bs := p.bytesOf(p.bigWords(a[0]))
		n := len(p.slice(a[1]))
		over := True
		for len(bs) > n {
			over = p.c.And(over, p.c.Eq(bs[0], K(0, 8)))
			bs = bs[1:]
		}
		if !p.branch(over) {
			p.panicStr("math/big: buffer too small to fit value")
		}
		for len(bs) < n {
			bs = append([]*Term{K(0, 8)}, bs...)
		}
		dst := p.slice(a[1])
		for i := range dst {
			dst[i] = bs[i]
		}
		return a[1]
	})
	over("Bytes", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		bs := p.bytesOf(p.bigWords(a[0]))
		for len(bs) > 0 && p.branch(p.c.Eq(bs[0], K(0, 8))) {
			bs = bs[1:]
		}
		return values(bs)
	})
}
