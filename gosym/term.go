package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLshr
	OpAshr
	OpConcat
	OpExtract
	OpZext
	OpSext
	OpHexDig // 4-bit -> lower-case hex digit byte
	OpB64Dig // 6-bit -> base64url digit byte
	OpB64Std // 6-bit -> base64 std digit byte
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpConcat: "concat",
	OpHexDig: "hexdig", OpB64Dig: "b64dig", OpB64Std: "b64std",
}

// Term is a hash-consed bit-vector (w>0, at most 64) or boolean (w==0) term.
type Term struct {
	op   Op
	w    uint16
	k    uint64 // constant value, extract low bit
	id   int
	args []*Term
	name string
	app  *App // output byte of an uninterpreted function
	idx  int
}

const maxSmall = 257

var smallConst [5][maxSmall]*Term

func wslot(w uint16) int {
	switch w {
	case 0:
		return 0
	case 8:
		return 1
	case 16:
		return 2
	case 32:
		return 3
	case 64:
		return 4
	}
	return -1
}

func init() {
	for _, w := range []uint16{0, 8, 16, 32, 64} {
		for i := 0; i < maxSmall; i++ {
			if w == 0 && i > 1 || w == 8 && i > 255 {
				break
			}
			smallConst[wslot(w)][i] = &Term{op: OpConst, w: w, k: uint64(i), id: -1}
		}
	}
}

func mask(w uint16) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

// K returns the constant v of width w.
func K(v uint64, w uint16) *Term {
	if w == 0 {
		if v != 0 {
			return True
		}
		return False
	}
	v &= mask(w)
	if s := wslot(w); s >= 0 && v < maxSmall {
		if t := smallConst[s][v]; t != nil {
			return t
		}
	}
	return &Term{op: OpConst, w: w, k: v, id: -1}
}

var True, False *Term

func init() {
	True = smallConst[0][1]
	False = smallConst[0][0]
}

func KB(b bool) *Term {
	if b {
		return True
	}
	return False
}
func K64(v int64) *Term { return K(uint64(v), 64) }

func (t *Term) isConst() bool { return t.op == OpConst }
func same(a, b *Term) bool {
	return a == b || a.op == OpConst && b.op == OpConst && a.k == b.k && a.w == b.w
}
func sext64(v uint64, w uint16) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}
func (t *Term) sval() int64 { return sext64(t.k, t.w) }

type tkey struct {
	op      Op
	w       uint16
	k       uint64
	a, b, c int
}
type ckey struct {
	w uint16
	k uint64
}

// Ctx owns the hash-consing table of one worker.
type Ctx struct {
	tab    map[tkey]*Term
	consts map[ckey]*Term
	vars   map[string]*Term
	apps   map[string]*App
	n      int
	umaxC  map[*Term]uint64
	cxEnum map[*Term]*enumInfo
}

func NewCtx() *Ctx {
	return &Ctx{tab: map[tkey]*Term{}, consts: map[ckey]*Term{}, vars: map[string]*Term{}, apps: map[string]*App{}, umaxC: map[*Term]uint64{}}
}

func (c *Ctx) canon(t *Term) *Term {
	if t.op != OpConst {
		return t
	}
	key := ckey{t.w, t.k}
	if r, ok := c.consts[key]; ok {
		return r
	}
	c.n++
	r := &Term{op: OpConst, w: t.w, k: t.k, id: c.n}
	c.consts[key] = r
	return r
}

func (c *Ctx) mk(op Op, w uint16, k uint64, args ...*Term) *Term {
	key := tkey{op: op, w: w, k: k}
	for i, a := range args {
		a = c.canon(a)
		args[i] = a
		switch i {
		case 0:
			key.a = a.id
		case 1:
			key.b = a.id
		case 2:
			key.c = a.id
		}
	}
	if t, ok := c.tab[key]; ok {
		return t
	}
	c.n++
	t := &Term{op: op, w: w, k: k, id: c.n, args: args}
	c.tab[key] = t
	return t
}

func (c *Ctx) Var(name string, w uint16) *Term {
	if t, ok := c.vars[name]; ok {
		return t
	}
	c.n++
	t := &Term{op: OpVar, w: w, id: c.n, name: name}
	c.vars[name] = t
	return t
}

func (c *Ctx) order(a, b *Term) (*Term, *Term) {
	a, b = c.canon(a), c.canon(b)
	if a.op == OpConst && b.op != OpConst {
		return b, a
	}
	if b.op == OpConst {
		return a, b
	}
	if a.id > b.id {
		return b, a
	}
	return a, b
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return KB(a.k == 0)
	case OpNot:
		return a.args[0]
	case OpUlt:
		return c.Ule(a.args[1], a.args[0])
	case OpUle:
		return c.Ult(a.args[1], a.args[0])
	case OpSlt:
		return c.Sle(a.args[1], a.args[0])
	case OpSle:
		return c.Slt(a.args[1], a.args[0])
	}
	return c.mk(OpNot, 0, 0, a)
}

func isNeg(a, b *Term) bool {
	return a.op == OpNot && a.args[0] == b || b.op == OpNot && b.args[0] == a
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.op == OpConst {
		if a.k == 0 {
			return False
		}
		return b
	}
	if b.op == OpConst {
		if b.k == 0 {
			return False
		}
		return a
	}
	if a == b {
		return a
	}
	if isNeg(a, b) {
		return False
	}
	if a.op == OpAnd && (a.args[0] == b || a.args[1] == b) {
		return a
	}
	if b.op == OpAnd && (b.args[0] == a || b.args[1] == a) {
		return b
	}
	a, b = c.order(a, b)
	return c.mk(OpAnd, 0, 0, a, b)
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.op == OpConst {
		if a.k != 0 {
			return True
		}
		return b
	}
	if b.op == OpConst {
		if b.k != 0 {
			return True
		}
		return a
	}
	if a == b {
		return a
	}
	if isNeg(a, b) {
		return True
	}
	a, b = c.order(a, b)
	return c.mk(OpOr, 0, 0, a, b)
}
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }
func (c *Ctx) AndN(ts ...*Term) *Term {
	r := True
	for _, t := range ts {
		r = c.And(r, t)
		if r == False {
			return r
		}
	}
	return r
}
func (c *Ctx) OrN(ts ...*Term) *Term {
	r := False
	for _, t := range ts {
		r = c.Or(r, t)
	}
	return r
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.op == OpConst {
		if cond.k != 0 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if a.w == 0 {
		if a.op == OpConst {
			if a.k != 0 {
				return c.Or(cond, b)
			}
			return c.And(c.Not(cond), b)
		}
		if b.op == OpConst {
			if b.k != 0 {
				return c.Or(c.Not(cond), a)
			}
			return c.And(cond, a)
		}
	}
	if cond.op == OpNot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.op == OpIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OpIte && b.args[0] == cond {
		b = b.args[2]
	}
	if same(a, b) {
		return a
	}
	return c.mk(OpIte, a.w, 0, cond, a, b)
}

// iteConst reports whether t is an ite tree over constants of bounded size.
func iteConst(t *Term, fuel int) bool {
	for {
		if t.op == OpConst {
			return true
		}
		if t.op != OpIte || fuel <= 0 {
			return false
		}
		if !iteConst(t.args[1], 0) && t.args[1].op != OpConst {
			if !iteConst(t.args[1], fuel-1) {
				return false
			}
		}
		t = t.args[2]
		fuel--
	}
}

func (c *Ctx) mapIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == OpIte {
		return c.Ite(t.args[0], c.mapIte(t.args[1], f), c.mapIte(t.args[2], f))
	}
	return f(t)
}

const iteFuel = 24

func (c *Ctx) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if same(a, b) {
		return True
	}
	if a.op == OpConst && b.op == OpConst {
		return False
	}
	if x, y, ok := c.linear(a, b); ok {
		return c.Eq(x, y)
	}
	a, b = c.order(a, b)
	if b.op == OpConst {
		if x, k, ok := c.scaled(a); ok {
			if b.k%k != 0 {
				return False
			}
			return c.Eq(x, K(b.k/k, a.w))
		}
	}
	if a.w == 0 {
		if b.op == OpConst {
			if b.k != 0 {
				return a
			}
			return c.Not(a)
		}
		if isNeg(a, b) {
			return False
		}
	}
	if b.op == OpConst {
		switch a.op {
		case OpIte:
			if a.args[1].op == OpConst || a.args[2].op == OpConst || iteConst(a, iteFuel) {
				return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
			}
		case OpZext:
			x := a.args[0]
			if b.k > mask(x.w) {
				return False
			}
			return c.Eq(x, K(b.k, x.w))
		case OpSext:
			x := a.args[0]
			if uint64(sext64(b.k&mask(x.w), x.w))&mask(a.w) != b.k {
				return False
			}
			return c.Eq(x, K(b.k, x.w))
		case OpAdd:
			if a.args[1].op == OpConst {
				return c.Eq(a.args[0], K(b.k-a.args[1].k, a.w))
			}
		case OpSub:
			if a.args[0].op == OpConst {
				return c.Eq(a.args[1], K(a.args[0].k-b.k, a.w))
			}
		case OpBXor:
			if a.args[1].op == OpConst {
				return c.Eq(a.args[0], K(b.k^a.args[1].k, a.w))
			}
		case OpBNot:
			return c.Eq(a.args[0], K(^b.k, a.w))
		case OpHexDig, OpB64Dig, OpB64Std:
			for v := uint64(0); v <= mask(a.args[0].w); v++ {
				if digVal(a.op, v) == b.k {
					return c.Eq(a.args[0], K(v, a.args[0].w))
				}
			}
			return False
		case OpConcat:
			lw := a.args[1].w
			return c.And(c.Eq(a.args[0], K(b.k>>lw, a.args[0].w)), c.Eq(a.args[1], K(b.k, lw)))
		}
		if b.k > c.umax(a) {
			return False
		}
	} else {
		if a.op == b.op {
			switch a.op {
			case OpZext, OpSext:
				if a.args[0].w == b.args[0].w {
					return c.Eq(a.args[0], b.args[0])
				}
			case OpHexDig, OpB64Dig, OpB64Std, OpBNot:
				return c.Eq(a.args[0], b.args[0])
			case OpAdd:
				if same(a.args[1], b.args[1]) {
					return c.Eq(a.args[0], b.args[0])
				}
				if a.args[0] == b.args[0] {
					return c.Eq(a.args[1], b.args[1])
				}
			}
		}
		if a.op == OpAdd && a.args[0] == b && a.args[1].op == OpConst || b.op == OpAdd && b.args[0] == a && b.args[1].op == OpConst {
			return False // x + k == x with k != 0
		}
		if a.op == OpIte && iteConst(a, 6) && b.op == OpIte && iteConst(b, 6) {
			return c.mapIte(a, func(x *Term) *Term { return c.Eq(b, x) })
		}
	}
	return c.mk(OpEq, 0, 0, a, b)
}

// umax is a cheap upper bound of the unsigned value of t.
func (c *Ctx) umax(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		return mask(t.w)
	}
	if v, ok := c.umaxC[t]; ok {
		return v
	}
	r := mask(t.w)
	switch t.op {
	case OpZext:
		r = c.umax(t.args[0])
	case OpIte:
		r = max(c.umax(t.args[1]), c.umax(t.args[2]))
	case OpBAnd:
		r = min(c.umax(t.args[0]), c.umax(t.args[1]))
	case OpBOr:
		m := c.umax(t.args[0]) | c.umax(t.args[1])
		if m != 0 {
			r = min(r, ^uint64(0)>>uint(bits.LeadingZeros64(m)))
		} else {
			r = 0
		}
	case OpLshr:
		if t.args[1].op == OpConst && t.args[1].k < 64 {
			r = c.umax(t.args[0]) >> t.args[1].k
		}
	case OpURem:
		if t.args[1].op == OpConst && t.args[1].k > 0 {
			r = min(c.umax(t.args[0]), t.args[1].k-1)
		}
	case OpUDiv:
		if t.args[1].op == OpConst && t.args[1].k > 0 {
			r = c.umax(t.args[0]) / t.args[1].k
		}
	case OpAdd:
		x, y := c.umax(t.args[0]), c.umax(t.args[1])
		if s, carry := bits.Add64(x, y, 0); carry == 0 && s <= mask(t.w) {
			r = s
		}
	case OpMul:
		x, y := c.umax(t.args[0]), c.umax(t.args[1])
		if hi, lo := bits.Mul64(x, y); hi == 0 && lo <= mask(t.w) {
			r = lo
		}
	case OpExtract:
		if t.k == 0 {
			r = min(r, c.umax(t.args[0]))
		}
	case OpHexDig:
		r = 'f'
	case OpB64Dig, OpB64Std:
		r = 'z'
	}
	c.umaxC[t] = r
	return r
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if same(a, b) {
		return False
	}
	if a.op == OpConst && b.op == OpConst {
		return KB(a.k < b.k)
	}
	if x, y, ok := c.linear(a, b); ok {
		return c.Ult(x, y)
	}
	if b.op == OpConst {
		if b.k == 0 {
			return False
		}
		if c.umax(a) < b.k {
			return True
		}
		if b.k == 1 {
			return c.Eq(a, K(0, a.w))
		}
		if x, k, ok := c.scaled(a); ok {
			return c.Ult(x, K((b.k-1)/k+1, a.w))
		}
		if a.op == OpZext {
			if b.k > mask(a.args[0].w) {
				return True
			}
			return c.Ult(a.args[0], K(b.k, a.args[0].w))
		}
		if a.op == OpIte && iteConst(a, iteFuel) {
			return c.mapIte(a, func(x *Term) *Term { return c.Ult(x, b) })
		}
	}
	if a.op == OpConst {
		if a.k >= c.umax(b) {
			return False
		}
		if a.k == 0 {
			return c.Not(c.Eq(b, K(0, b.w)))
		}
		if b.op == OpZext {
			return c.Ult(K(a.k, b.args[0].w), b.args[0])
		}
		if x, k, ok := c.scaled(b); ok {
			return c.Ult(K(a.k/k, a.w), x)
		}
		if b.op == OpIte && iteConst(b, iteFuel) {
			return c.mapIte(b, func(x *Term) *Term { return c.Ult(a, x) })
		}
	}
	if a.op == OpZext && b.op == OpZext && a.args[0].w == b.args[0].w {
		return c.Ult(a.args[0], b.args[0])
	}
	return c.mk(OpUlt, 0, 0, a, b)
}
func (c *Ctx) Ule(a, b *Term) *Term {
	if same(a, b) {
		return True
	}
	if a.op == OpConst && b.op == OpConst {
		return KB(a.k <= b.k)
	}
	if x, y, ok := c.linear(a, b); ok {
		return c.Ule(x, y)
	}
	if b.op == OpConst {
		if c.umax(a) <= b.k {
			return True
		}
		return c.Ult(a, K(b.k+1, b.w))
	}
	if a.op == OpConst {
		if a.k == 0 {
			return True
		}
		return c.Ult(K(a.k-1, a.w), b)
	}
	if a.op == OpZext && b.op == OpZext && a.args[0].w == b.args[0].w {
		return c.Ule(a.args[0], b.args[0])
	}
	return c.mk(OpUle, 0, 0, a, b)
}

// nonneg reports whether t is surely non-negative when read as signed.
func (c *Ctx) nonneg(t *Term) bool { return c.umax(t) <= mask(t.w)>>1 }

// negated returns x when t is -x for a surely non-negative x.
func (c *Ctx) negated(t *Term) *Term {
	if t.op == OpSub && t.args[0].op == OpConst && t.args[0].k == 0 && c.nonneg(t.args[1]) {
		return t.args[1]
	}
	return nil
}

// flip negates both sides of a signed comparison when that makes it simpler.
func (c *Ctx) flip(a, b *Term) (*Term, *Term, bool) {
	x, y := c.negated(a), c.negated(b)
	minus := func(t *Term) *Term {
		if t.op == OpConst && t.k != 1<<(t.w-1) {
			return K(-t.k&mask(t.w), t.w)
		}
		return nil
	}
	switch {
	case x != nil && y != nil:
		return x, y, true
	case x != nil && minus(b) != nil:
		return x, minus(b), true
	case y != nil && minus(a) != nil:
		return minus(a), y, true
	}
	return nil, nil, false
}

func (c *Ctx) Slt(a, b *Term) *Term {
	if same(a, b) {
		return False
	}
	if a.op == OpConst && b.op == OpConst {
		return KB(a.sval() < b.sval())
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ult(a, b)
	}
	if x, y, ok := c.flip(a, b); ok {
		return c.Slt(y, x)
	}
	if b.op == OpConst && a.op == OpIte && iteConst(a, iteFuel) {
		return c.mapIte(a, func(x *Term) *Term { return c.Slt(x, b) })
	}
	if a.op == OpConst && b.op == OpIte && iteConst(b, iteFuel) {
		return c.mapIte(b, func(x *Term) *Term { return c.Slt(a, x) })
	}
	if b.op == OpConst && b.sval() <= 0 && c.nonneg(a) {
		return False
	}
	if a.op == OpConst && a.sval() < 0 && c.nonneg(b) {
		return True
	}
	return c.mk(OpSlt, 0, 0, a, b)
}
func (c *Ctx) Sle(a, b *Term) *Term {
	if same(a, b) {
		return True
	}
	if a.op == OpConst && b.op == OpConst {
		return KB(a.sval() <= b.sval())
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ule(a, b)
	}
	if x, y, ok := c.flip(a, b); ok {
		return c.Sle(y, x)
	}
	if b.op == OpConst && a.op == OpIte && iteConst(a, iteFuel) {
		return c.mapIte(a, func(x *Term) *Term { return c.Sle(x, b) })
	}
	if a.op == OpConst && b.op == OpIte && iteConst(b, iteFuel) {
		return c.mapIte(b, func(x *Term) *Term { return c.Sle(a, x) })
	}
	if a.op == OpConst && a.sval() <= 0 && c.nonneg(b) {
		return True
	}
	if b.op == OpConst && b.sval() < 0 && c.nonneg(a) {
		return False
	}
	return c.mk(OpSle, 0, 0, a, b)
}

func foldBin(op Op, x, y uint64, w uint16) (uint64, bool) {
	switch op {
	case OpAdd:
		return x + y, true
	case OpSub:
		return x - y, true
	case OpMul:
		return x * y, true
	case OpUDiv:
		if y == 0 {
			return mask(w), true
		}
		return x / y, true
	case OpURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpSDiv:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1, true
			}
			return mask(w), true
		}
		if sy == -1 {
			return uint64(-sx), true
		}
		return uint64(sx / sy), true
	case OpSRem:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx % sy), true
	case OpBAnd:
		return x & y, true
	case OpBOr:
		return x | y, true
	case OpBXor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return x << y, true
	case OpLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAshr:
		s := sext64(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s >> y), true
	}
	return 0, false
}

// Bin builds an arithmetic or bitwise term.
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %v width mismatch %d %d", op, a.w, b.w))
	}
	if a.op == OpConst && b.op == OpConst {
		if v, ok := foldBin(op, a.k, b.k, w); ok {
			return K(v, w)
		}
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		a, b = c.order(a, b)
	}
	if b.op == OpConst {
		switch op {
		case OpAdd:
			if b.k == 0 {
				return a
			}
			if a.op == OpAdd && a.args[1].op == OpConst {
				return c.Bin(OpAdd, a.args[0], K(a.args[1].k+b.k, w))
			}
			if a.op == OpSub && a.args[0].op == OpConst {
				return c.Bin(OpSub, K(a.args[0].k+b.k, w), a.args[1])
			}
		case OpSub:
			return c.Bin(OpAdd, a, K(-b.k, w))
		case OpMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if b.k&(b.k-1) == 0 {
				return c.Bin(OpShl, a, K(uint64(bits.TrailingZeros64(b.k)), w))
			}
		case OpUDiv:
			if b.k == 1 {
				return a
			}
			if b.k != 0 && b.k&(b.k-1) == 0 {
				return c.Bin(OpLshr, a, K(uint64(bits.TrailingZeros64(b.k)), w))
			}
			if b.k != 0 && c.umax(a) < b.k {
				return K(0, w)
			}
			if x, k, ok := c.scaled(a); ok && b.k != 0 {
				if k%b.k == 0 {
					return c.Bin(OpMul, x, K(k/b.k, w))
				}
				if b.k%k == 0 {
					return c.Bin(OpUDiv, x, K(b.k/k, w))
				}
			}
		case OpURem:
			if _, k, ok := c.scaled(a); ok && b.k != 0 && k%b.k == 0 {
				return K(0, w)
			}
			if b.k != 0 && c.umax(a) < b.k {
				return a
			}
			if b.k != 0 && b.k&(b.k-1) == 0 {
				return c.Bin(OpBAnd, a, K(b.k-1, w))
			}
		case OpSDiv, OpSRem:
			if b.sval() > 0 && c.nonneg(a) {
				if op == OpSDiv {
					return c.Bin(OpUDiv, a, b)
				}
				return c.Bin(OpURem, a, b)
			}
			if x := c.negated(a); x != nil && b.sval() > 0 {
				return c.Bin(OpSub, K(0, w), c.Bin(op, x, b))
			}
		case OpBAnd:
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if a.op == OpBAnd && a.args[1].op == OpConst {
				return c.Bin(OpBAnd, a.args[0], K(a.args[1].k&b.k, w))
			}
			if b.k&(b.k+1) == 0 && c.umax(a) <= b.k {
				return a
			}
			if a.op == OpZext && b.k&^mask(a.args[0].w) != 0 {
				x := a.args[0]
				return c.Zext(c.Bin(OpBAnd, x, K(b.k, x.w)), w)
			}
		case OpBOr, OpBXor:
			if b.k == 0 {
				return a
			}
			if op == OpBOr && b.k == mask(w) {
				return b
			}
		case OpShl, OpLshr, OpAshr:
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) && op != OpAshr {
				return K(0, w)
			}
			if op == OpLshr && a.op == OpZext && b.k >= uint64(a.args[0].w) {
				return K(0, w)
			}
			if op == OpLshr && a.op == OpZext {
				x := a.args[0]
				return c.Zext(c.Bin(OpLshr, x, K(b.k, x.w)), w)
			}
			if op == OpAshr && c.nonneg(a) {
				return c.Bin(OpLshr, a, b)
			}
		}
		if a.op == OpIte && iteConst(a, iteFuel) {
			return c.mapIte(a, func(x *Term) *Term { return c.Bin(op, x, b) })
		}
	}
	if a.op == OpConst {
		if op == OpSub && b.op == OpSub && b.args[0].op == OpConst {
			return c.Bin(OpAdd, b.args[1], K((a.k-b.args[0].k)&mask(w), w))
		}
		switch op {
		case OpShl, OpLshr, OpUDiv, OpURem:
			if a.k == 0 && op != OpUDiv {
				return a
			}
		}
		if b.op == OpIte && iteConst(b, iteFuel) {
			return c.mapIte(b, func(x *Term) *Term { return c.Bin(op, a, x) })
		}
	}
	switch op {
	case OpSub:
		if same(a, b) {
			return K(0, w)
		}
		ab, ak := splitAdd(a)
		bb, bk := splitAdd(b)
		if ab == bb && ab != nil {
			return K(ak-bk, w)
		}
		if bk != 0 {
			return c.Bin(OpAdd, c.Bin(OpSub, a, bb), K(-bk, w))
		}
		if ak != 0 && ab != nil {
			return c.Bin(OpAdd, c.Bin(OpSub, ab, b), K(ak, w))
		}
		// (x+y)-x
		if a.op == OpAdd {
			if a.args[0] == b {
				return a.args[1]
			}
			if a.args[1] == b {
				return a.args[0]
			}
		}
	case OpAdd:
		ab, ak := splitAdd(a)
		bb, bk := splitAdd(b)
		if (ak != 0 || bk != 0) && ab != nil && bb != nil {
			return c.Bin(OpAdd, c.Bin(OpAdd, ab, bb), K(ak+bk, w))
		}
		if a.op == OpSub && a.args[1] == b {
			return a.args[0]
		}
		if b.op == OpSub && b.args[1] == a {
			return b.args[0]
		}
	case OpBXor:
		if a == b {
			return K(0, w)
		}
	case OpBAnd, OpBOr:
		if a == b {
			return a
		}
	}
	return c.mk(op, w, 0, a, b)
}

func splitAdd(t *Term) (*Term, uint64) {
	if t.op == OpAdd && t.args[1].op == OpConst {
		return t.args[0], t.args[1].k
	}
	if t.op == OpConst {
		return nil, t.k
	}
	return t, 0
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.op == OpConst {
		return K(^a.k, a.w)
	}
	if a.op == OpBNot {
		return a.args[0]
	}
	return c.mk(OpBNot, a.w, 0, a)
}

func (c *Ctx) Zext(a *Term, w uint16) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return K(a.k, w)
	}
	if a.op == OpZext {
		return c.Zext(a.args[0], w)
	}
	if a.op == OpIte && iteConst(a, iteFuel) {
		return c.mapIte(a, func(x *Term) *Term { return c.Zext(x, w) })
	}
	return c.mk(OpZext, w, 0, a)
}

func (c *Ctx) Sext(a *Term, w uint16) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return K(uint64(sext64(a.k, a.w)), w)
	}
	if c.nonneg(a) {
		return c.Zext(a, w)
	}
	if a.op == OpIte && iteConst(a, iteFuel) {
		return c.mapIte(a, func(x *Term) *Term { return c.Sext(x, w) })
	}
	return c.mk(OpSext, w, 0, a)
}

// Extract returns the w bits of a starting at bit lo.
func (c *Ctx) Extract(a *Term, lo uint64, w uint16) *Term {
	if lo == 0 && a.w == w {
		return a
	}
	if a.op == OpConst {
		return K(a.k>>lo, w)
	}
	switch a.op {
	case OpZext, OpSext:
		x := a.args[0]
		if lo+uint64(w) <= uint64(x.w) {
			return c.Extract(x, lo, w)
		}
		if a.op == OpZext {
			if lo >= uint64(x.w) {
				return K(0, w)
			}
			if lo == 0 {
				return c.Zext(x, w)
			}
		}
		if a.op == OpSext && lo == 0 {
			return c.Sext(x, w)
		}
	case OpExtract:
		return c.Extract(a.args[0], a.k+lo, w)
	case OpConcat:
		lw := uint64(a.args[1].w)
		if lo+uint64(w) <= lw {
			return c.Extract(a.args[1], lo, w)
		}
		if lo >= lw {
			return c.Extract(a.args[0], lo-lw, w)
		}
	case OpIte:
		if iteConst(a, iteFuel) {
			return c.mapIte(a, func(x *Term) *Term { return c.Extract(x, lo, w) })
		}
	case OpBAnd, OpBOr, OpBXor:
		return c.Bin(a.op, c.Extract(a.args[0], lo, w), c.Extract(a.args[1], lo, w))
	case OpLshr:
		if a.args[1].op == OpConst && lo+uint64(w)+a.args[1].k <= uint64(a.w) {
			return c.Extract(a.args[0], lo+a.args[1].k, w)
		}
	case OpShl:
		if a.args[1].op == OpConst {
			s := a.args[1].k
			if lo >= s {
				return c.Extract(a.args[0], lo-s, w)
			}
			if lo+uint64(w) <= s {
				return K(0, w)
			}
		}
	case OpAdd, OpSub, OpMul:
		if lo == 0 && w < a.w && (a.args[1].op == OpConst || a.args[0].op == OpZext || a.args[1].op == OpZext) {
			return c.Bin(a.op, c.Extract(a.args[0], 0, w), c.Extract(a.args[1], 0, w))
		}
	}
	return c.mk(OpExtract, w, lo, a)
}

func (c *Ctx) Concat(hi, lo *Term) *Term {
	w := hi.w + lo.w
	if w > 64 {
		panic("concat wider than 64")
	}
	if hi.op == OpConst && lo.op == OpConst {
		return K(hi.k<<lo.w|lo.k, w)
	}
	if hi.op == OpExtract && lo.op == OpExtract && hi.args[0] == lo.args[0] && hi.k == lo.k+uint64(lo.w) {
		return c.Extract(hi.args[0], lo.k, w)
	}
	if hi.op == OpConst && hi.k == 0 {
		return c.Zext(lo, w)
	}
	return c.mk(OpConcat, w, 0, hi, lo)
}

const b64url = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
const b64std = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

func digVal(op Op, v uint64) uint64 {
	switch op {
	case OpHexDig:
		return uint64("0123456789abcdef"[v&15])
	case OpB64Dig:
		return uint64(b64url[v&63])
	default:
		return uint64(b64std[v&63])
	}
}

// Dig applies a digit encoder.
func (c *Ctx) Dig(op Op, a *Term) *Term {
	if a.op == OpConst {
		return K(digVal(op, a.k), 8)
	}
	return c.mk(op, 8, 0, a)
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 6)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, d int) {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			sb.WriteString(strconv.FormatBool(t.k != 0))
		} else {
			sb.WriteString(strconv.FormatUint(t.k, 10))
		}
		return
	case OpVar:
		sb.WriteString(t.name)
		return
	}
	if d == 0 {
		sb.WriteString("…")
		return
	}
	n := opNames[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d.%d.%d", t.op, t.w, t.k)
	}
	sb.WriteString("(" + n)
	for _, a := range t.args {
		sb.WriteByte(' ')
		a.str(sb, d-1)
	}
	sb.WriteByte(')')
}

type enumInfo struct{}

// Eval evaluates t under a model of the variables.
type Model struct {
	v    map[*Term]uint64
	memo map[*Term]uint64
}

func NewModel() *Model { return &Model{v: map[*Term]uint64{}, memo: map[*Term]uint64{}} }

func (m *Model) Eval(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		return m.v[t]
	}
	if r, ok := m.memo[t]; ok {
		return r
	}
	var r uint64
	a := t.args
	switch t.op {
	case OpNot:
		r = 1 - m.Eval(a[0])
	case OpAnd:
		r = m.Eval(a[0])
		if r != 0 {
			r = m.Eval(a[1])
		}
	case OpOr:
		r = m.Eval(a[0])
		if r == 0 {
			r = m.Eval(a[1])
		}
	case OpIte:
		if m.Eval(a[0]) != 0 {
			r = m.Eval(a[1])
		} else {
			r = m.Eval(a[2])
		}
	case OpEq:
		r = b2u(m.Eval(a[0]) == m.Eval(a[1]))
	case OpUlt:
		r = b2u(m.Eval(a[0]) < m.Eval(a[1]))
	case OpUle:
		r = b2u(m.Eval(a[0]) <= m.Eval(a[1]))
	case OpSlt:
		r = b2u(sext64(m.Eval(a[0]), a[0].w) < sext64(m.Eval(a[1]), a[0].w))
	case OpSle:
		r = b2u(sext64(m.Eval(a[0]), a[0].w) <= sext64(m.Eval(a[1]), a[0].w))
	case OpBNot:
		r = ^m.Eval(a[0]) & mask(t.w)
	case OpConcat:
		r = m.Eval(a[0])<<a[1].w | m.Eval(a[1])
	case OpExtract:
		r = m.Eval(a[0]) >> t.k & mask(t.w)
	case OpZext:
		r = m.Eval(a[0])
	case OpSext:
		r = uint64(sext64(m.Eval(a[0]), a[0].w)) & mask(t.w)
	case OpHexDig, OpB64Dig, OpB64Std:
		r = digVal(t.op, m.Eval(a[0]))
	default:
		v, ok := foldBin(t.op, m.Eval(a[0]), m.Eval(a[1]), t.w)
		if !ok {
			panic("eval: bad op")
		}
		r = v & mask(t.w)
	}
	m.memo[t] = r
	return r
}

func (m *Model) set(t *Term, v uint64) {
	m.v[t] = v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
