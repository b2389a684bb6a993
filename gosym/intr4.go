package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg(zz+"models.pin", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		return K(p.pin(t, "date"), t.w)
	})
	reg(zz+"models.comparable_", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		x := a[0].(Iface)
		return KB(x.t == nil || types.Comparable(x.t))
	})
}

func init() {
	// the compiler replaces this body
	reg("crypto/internal/constanttime.boolToUint8", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		return p.c.Ite(a[0].(*Term), K(1, 8), K(0, 8))
	})
	// reflect, as far as nil tests need it
	reg("reflect.ValueOf", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return &Native{"reflect", a[0].(Iface)} })
	rv := func(p *Path, v Value) Iface {
		n, ok := v.(*Native)
		if !ok || n.kind != "reflect" {
			panic(p.unsupported("reflect.Value"))
		}
		return n.v.(Iface)
	}
	reg("(reflect.Value).Kind", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		x := rv(p, a[0])
		if x.t == nil {
			return K(0, 64)
		}
		return K(uint64(kindOf(x.t)), 64)
	})
	reg("(reflect.Value).IsNil", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		x := rv(p, a[0])
		switch x.t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Signature, *types.Interface:
			return KB(isNilVal(x.v))
		}
		p.panicStr("reflect: call of reflect.Value.IsNil on " + x.t.String())
		return nil
	})
	reg("(reflect.Value).IsValid", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value { return KB(rv(p, a[0]).t != nil) })
	// seeding the table generator with an unknown seed
	reg("(*math/rand.rngSource).Seed", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		if t := a[1].(*Term); t.op == OpConst {
			return p.callBody(fr, fn, a)
		}
		p.side[seedKey{a[0].(*Value)}] = true
		return nil
	})
	for _, n := range []string{"Int63", "Uint64"} {
		reg("(*math/rand.rngSource)."+n, func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			if p.side[seedKey{a[0].(*Value)}] != nil {
				panic(p.unsupported("draw from a generator with a symbolic seed"))
			}
			return p.callBody(fr, fn, a)
		})
	}
}

type seedKey struct{ c *Value }

func kindOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}
