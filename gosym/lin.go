package main

import (
	"math/bits"
	"slices"
)

// addends flattens a sum that cannot overflow; ok is false when it may.
func (c *Ctx) addends(t *Term) (ts []*Term, k uint64, ok bool) {
	var total uint64
	n := 0
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if n++; n > 24 {
			return false
		}
		if t.op == OpAdd {
			return walk(t.args[0]) && walk(t.args[1])
		}
		s, carry := bits.Add64(total, c.umax(t), 0)
		if carry != 0 || s > mask(t.w) {
			return false
		}
		total = s
		if t.op == OpConst {
			k += t.k
		} else {
			ts = append(ts, t)
		}
		return true
	}
	if !walk(t) {
		return nil, 0, false
	}
	slices.SortFunc(ts, func(a, b *Term) int { return a.id - b.id })
	return ts, k, true
}

// scaled splits t into x*k when the product cannot overflow.
func (c *Ctx) scaled(t *Term) (*Term, uint64, bool) {
	if t.op != OpMul || t.args[1].op != OpConst || t.args[1].k == 0 {
		return nil, 0, false
	}
	hi, lo := bits.Mul64(c.umax(t.args[0]), t.args[1].k)
	return t.args[0], t.args[1].k, hi == 0 && lo <= mask(t.w)
}

func (c *Ctx) sum(ts []*Term, k uint64, w uint16) *Term {
	r := K(k, w)
	for i, t := range ts {
		if i == 0 && k == 0 {
			r = t
		} else {
			r = c.Bin(OpAdd, r, t)
		}
	}
	return r
}

// linear rewrites a comparison of unsigned values into an equivalent smaller one.
func (c *Ctx) linear(a, b *Term) (*Term, *Term, bool) {
	if a.w < 16 || a.op != OpAdd && a.op != OpMul && b.op != OpAdd && b.op != OpMul {
		return a, b, false
	}
	if x, k, ok := c.scaled(a); ok {
		if y, l, ok := c.scaled(b); ok && k == l {
			return x, y, true
		}
	}
	ta, ka, ok := c.addends(a)
	if !ok {
		return a, b, false
	}
	tb, kb, ok := c.addends(b)
	if !ok {
		return a, b, false
	}
	changed := ka != 0 && kb != 0
	m := min(ka, kb)
	ka, kb = ka-m, kb-m
	var ra, rb []*Term
	i, j := 0, 0
	for i < len(ta) || j < len(tb) {
		switch {
		case j == len(tb) || i < len(ta) && ta[i].id < tb[j].id:
			ra = append(ra, ta[i])
			i++
		case i == len(ta) || tb[j].id < ta[i].id:
			rb = append(rb, tb[j])
			j++
		default:
			changed = true
			i++
			j++
		}
	}
	if !changed {
		return a, b, false
	}
	return c.sum(ra, ka, a.w), c.sum(rb, kb, a.w), true
}
