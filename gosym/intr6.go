package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	// Text made of encoder digits is decoded by structure; other text runs the real decoder.
	reg("(*encoding/base64.Encoding).DecodeString", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		s, ok := a[1].(*SymStr)
		if !ok {
			return p.callBody(fr, fn, a)
		}
		if out, ok := p.undigits(a[0], s); ok {
			return Tuple{values(out), Iface{}}
		}
		return p.callBody(fr, fn, a)
	})
}

// undigits decodes base64 text made of encoder digits.
func (p *Path) undigits(e Value, s *SymStr) ([]*Term, bool) {
	if s == nil {
		return nil, false
	}
	enc := (*(e.(*Value))).(StructV)
	op, set := OpB64Dig, b64url
	switch enc[0].(ArrayV)[62].(*Term).k {
	case '-':
	case '+':
		op, set = OpB64Std, b64std
	default:
		return nil, false
	}
	pad := true
	for _, f := range enc[1:] {
		if t, ok := f.(*Term); ok && t.w == 32 {
			pad = sext64(t.k, 32) >= 0
		}
	}
	if s.alts != nil || pad || s.n.op != OpConst {
		return nil, false
	}
	bs := p.fixLen(s)
	if len(bs)%4 == 1 {
		return nil, false
	}
	var ds []*Term
	for _, b := range bs {
		switch {
		case b.op == op:
			ds = append(ds, b.args[0])
		case b.op == OpConst && b.k < 128 && strings.IndexByte(set, byte(b.k)) >= 0:
			ds = append(ds, K(uint64(strings.IndexByte(set, byte(b.k))), 6))
		default:
			return nil, false
		}
	}
	c := p.c
	var out []*Term
	for i := 0; i < len(ds); i += 4 {
		g := ds[i:min(i+4, len(ds))]
		out = append(out, c.Concat(g[0], c.Extract(g[1], 4, 2)))
		if len(g) > 2 {
			out = append(out, c.Concat(c.Extract(g[1], 0, 4), c.Extract(g[2], 2, 4)))
		}
		if len(g) > 3 {
			out = append(out, c.Concat(c.Extract(g[2], 0, 2), g[3]))
		}
	}
	return out, true
}
