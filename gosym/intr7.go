package main

import (
	"go/types"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Library calls that today's code does not make but an equivalent form of it may.
func init() {
	reg("internal/stringslite.Clone", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("maps.clone", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		m, _ := i.v.(*MapV)
		if m == nil {
			return i
		}
		n := newMap(m.kt, m.vt)
		for _, e := range m.entries {
			if !e.dead {
				p.mapSet(n, e.k, e.v)
			}
		}
		return Iface{i.t, n}
	})
	reg("slices.overlaps", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0].([]Value), a[1].([]Value)
		if len(x) == 0 || len(y) == 0 {
			return False
		}
		at := func(v []Value, i int) uintptr { return uintptr(unsafe.Pointer(&v[i])) }
		return KB(at(x, 0) <= at(y, len(y)-1) && at(y, 0) <= at(x, len(x)-1))
	})
	// insertion by neighbours: stable, and every comparison is between two positions of the slice
	sorted := func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		l, ok := a[0].(Iface).v.([]Value)
		if !ok {
			panic(p.unsupported("sort of another kind of slice"))
		}
		for i := 1; i < len(l); i++ {
			for j := i; j > 0 && p.branch(p.callValue(fr, a[1], []Value{K(uint64(j), 64), K(uint64(j-1), 64)}, nil).(*Term)); j-- {
				l[j], l[j-1] = l[j-1], l[j]
			}
		}
		return nil
	}
	reg("sort.Slice", sorted)
	reg("sort.SliceStable", sorted)

	anyT := types.NewInterfaceType(nil, nil)
	held := func(p *Path, m, k, old Value) bool {
		r := intrinsics["(*sync.Map).Load"](p, nil, nil, []Value{m, k}).(Tuple)
		return p.branch(r[1].(*Term)) && p.branch(p.equals(anyT, r[0], old))
	}
	reg("(*sync.Map).CompareAndSwap", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		if !held(p, a[0], a[1], a[2]) {
			return False
		}
		intrinsics["(*sync.Map).Store"](p, fr, fn, []Value{a[0], a[1], a[3]})
		return True
	})
	reg("(*sync.Map).CompareAndDelete", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		if !held(p, a[0], a[1], a[2]) {
			return False
		}
		intrinsics["(*sync.Map).Delete"](p, fr, fn, []Value{a[0], a[1]})
		return True
	})
	reg("(*sync.Map).Clear", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		m := p.syncMap(a[0])
		for _, e := range append([]*mapEntry(nil), m.entries...) {
			if !e.dead {
				p.mapDelete(m, e.k)
			}
		}
		return nil
	})
	reg("(*regexp.Regexp).FindString", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		n, ok := a[0].(*Native)
		if !ok || n == nil {
			p.nilDeref()
		}
		return n.v.(*rx).re.FindString(p.concStr(a[1], "search text"))
	})
	// no timer ever fires: the clock stands still within a call
	reg("time.AfterFunc", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		c := new(Value)
		*c = zero(p.w.e.world.typeOf("time", "Timer"))
		return c
	})
	reg("(*time.Timer).Stop", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return True })
	reg("(*time.Timer).Reset", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return True })

	// encoding into a buffer leaves the digits that encoding to a string gives
	encode := func(to string) intrinsic {
		return func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			n := len(a)
			dst, ok := a[n-2].([]Value)
			src := p.bytesStr(a[n-1])
			if _, conc := src.(string); conc || !ok {
				return p.callBody(fr, fn, a)
			}
			args := append(append([]Value{}, a[:n-2]...), a[n-1])
			out := p.fixLen(intrinsics[to](p, fr, fn, args))
			if len(out) > len(dst) {
				return p.callBody(fr, fn, a)
			}
			for i, t := range out {
				dst[i] = t
			}
			return K(uint64(len(out)), 64)
		}
	}
	b64 := encode("(*encoding/base64.Encoding).EncodeToString")
	reg("(*encoding/base64.Encoding).Encode", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		b64(p, fr, fn, a)
		return nil
	})
	reg("encoding/hex.Encode", encode("encoding/hex.EncodeToString"))
	reg("(*encoding/base64.Encoding).Decode", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		dst, ok := a[1].([]Value)
		s, sym := p.bytesStr(a[2]).(*SymStr)
		if out, dec := p.undigits(a[0], s); ok && sym && dec && len(out) <= len(dst) {
			for i, t := range out {
				dst[i] = t
			}
			return Tuple{K(uint64(len(out)), 64), Iface{}}
		}
		return p.callBody(fr, fn, a)
	})
	reg("google.golang.org/protobuf/proto.Merge", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		d, s := a[0].(Iface), a[1].(Iface)
		if d.t == nil || s.t == nil || !types.Identical(d.t, s.t) {
			panic(p.unsupported("proto.Merge of different messages"))
		}
		sp := s.v.(*Value)
		if sp == nil {
			return nil
		}
		dp := d.v.(*Value)
		if dp == nil {
			p.nilDeref()
		}
		p.mergeMsg(deref(d.t), dp, sp)
		return nil
	})
	reg("google.golang.org/protobuf/proto.Reset", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		d := a[0].(Iface)
		if dp, _ := d.v.(*Value); dp != nil {
			*dp = zero(deref(d.t))
		}
		return nil
	})
	reg("(google.golang.org/protobuf/internal/impl.Export).MessageStringOf", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return "<message>" })
}

// mergeMsg is proto.Merge over the exported structure of generated messages.
func (p *Path) mergeMsg(t types.Type, d, s *Value) {
	st := t.Underlying().(*types.Struct)
	dst, src := p.force(*d).(StructV), p.force(*s).(StructV)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		v := p.force(src[i])
		switch u := f.Type().Underlying().(type) {
		case *types.Basic:
			set := False
			switch x := v.(type) {
			case *Term:
				set = p.c.Not(p.equals(f.Type(), x, zero(f.Type())))
			case string, *SymStr:
				set = p.c.Not(p.strEq(x, ""))
			default:
				panic(p.unsupported("proto.Merge of a " + f.Type().String()))
			}
			if p.branch(set) {
				dst[i] = v
			}
		case *types.Pointer:
			x := v.(*Value)
			if x == nil {
				continue
			}
			y, _ := p.force(dst[i]).(*Value)
			if _, ok := u.Elem().Underlying().(*types.Struct); ok && y != nil {
				p.mergeMsg(u.Elem(), y, x)
			} else {
				dst[i] = deepCopy(v, map[*Value]*Value{})
			}
		case *types.Slice:
			x, ok := v.([]Value)
			if !ok {
				panic(p.unsupported("proto.Merge of bytes of unknown length"))
			}
			if b, isb := u.Elem().Underlying().(*types.Basic); isb && b.Kind() == types.Uint8 {
				if len(x) > 0 {
					dst[i] = append([]Value{}, x...)
				}
				continue
			}
			if len(x) > 0 {
				y, _ := p.force(dst[i]).([]Value)
				dst[i] = append(append([]Value{}, y...), deepCopy(x, map[*Value]*Value{}).([]Value)...)
			}
		case *types.Map:
			x := v.(*MapV)
			if x == nil {
				continue
			}
			y, _ := p.force(dst[i]).(*MapV)
			if y == nil {
				y = newMap(x.kt, x.vt)
				dst[i] = y
			}
			for _, e := range x.entries {
				if !e.dead {
					p.mapSet(y, e.k, deepCopy(e.v, map[*Value]*Value{}))
				}
			}
		default:
			x := v.(Iface)
			if x.t != nil {
				panic(p.unsupported("proto.Merge of a oneof"))
			}
		}
	}
}
