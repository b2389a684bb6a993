package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Fields that a harness leaves open: vs.Fill puts a Lazy in every unset exported field of a
// message; its value is decided when the code under test reads it. Values are generated from the
// name alone, so that a copy of an unread field and the field itself stay equal.

type Lazy struct {
	name string
	t    types.Type
	max  int
	done bool
	v    Value
}

// force is the value itself, deciding it when it is lazy.
func (p *Path) force(v Value) Value {
	l, ok := v.(*Lazy)
	if !ok {
		return v
	}
	if l.done {
		return l.v
	}
	if p.spec {
		panic(specAbort{})
	}
	l.v = p.fillVal(l.name, l.t, l.max)
	l.done = true
	return l.v
}

func (p *Path) fillMemo(name string, f func() Value) Value {
	if p.filled == nil {
		p.filled = map[string]Value{}
	}
	if v, ok := p.filled[name]; ok {
		return v
	}
	v := f()
	p.filled[name] = v
	return v
}

// fillVal is an arbitrary value of type t.
func (p *Path) fillVal(name string, t types.Type, max int) Value {
	given := func() bool {
		b := p.fillMemo(name+"?", func() Value {
			v := p.newVar(name+"?", 0)
			p.input(name+"?", "bool", v, false)
			return v
		})
		return p.branch(b.(*Term))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return p.fillMemo(name, func() Value {
				s := p.symStr(name, 0, max, false)
				p.input(name, "str", s, false)
				return s
			})
		case u.Info()&types.IsBoolean != 0:
			return p.fillMemo(name, func() Value {
				v := p.newVar(name, 0)
				p.input(name, "bool", v, false)
				return v
			})
		case u.Info()&types.IsInteger != 0:
			return p.fillMemo(name, func() Value {
				if _, named := types.Unalias(t).(*types.Named); named {
					// an enumeration
					v := p.newVar(name, 4)
					p.boundVar(v, 0, 7)
					x := p.c.Zext(v, intWidth(u))
					p.input(name, "int", x, true)
					return x
				}
				v := p.newVar(name, intWidth(u))
				p.input(name, "int", v, isSigned(t))
				return v
			})
		}
	case *types.Pointer:
		if !given() {
			return (*Value)(nil)
		}
		c := new(Value)
		if st, ok := u.Elem().Underlying().(*types.Struct); ok {
			sv := zero(u.Elem()).(StructV)
			p.fillStruct(name, st, sv, max)
			*c = sv
		} else {
			*c = p.fillVal(name, u.Elem(), max)
		}
		return c
	case *types.Slice:
		if !given() {
			return []Value(nil)
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			s := p.fillMemo(name, func() Value {
				s := p.symStr(name, 0, max, false)
				p.input(name, "str", s, false)
				return s
			})
			return &LazyBytes{s: s.(*SymStr)}
		}
		return []Value{p.fillVal(name+"[0]", u.Elem(), 20)}
	}
	panic(p.unsupported("arbitrary " + t.String()))
}

func fillable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsString|types.IsBoolean|types.IsInteger) != 0
	case *types.Pointer:
		switch e := u.Elem().Underlying().(type) {
		case *types.Struct:
			return true
		case *types.Basic:
			return fillable(e)
		}
	case *types.Slice:
		_, ok := u.Elem().Underlying().(*types.Basic)
		return ok
	}
	return false
}

func unset(v Value) bool {
	switch v := v.(type) {
	case string:
		return v == ""
	case *Term:
		return v.op == OpConst && v.k == 0
	case *Value:
		return v == nil
	case []Value:
		return v == nil
	case *LazyBytes:
		return v == nil
	}
	return false
}

func (p *Path) fillStruct(name string, st *types.Struct, sv StructV, max int, except ...Value) {
fields:
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() || !unset(sv[i]) || !fillable(f.Type()) {
			continue
		}
		for _, x := range except {
			if x == f.Name() {
				continue fields
			}
		}
		sv[i] = &Lazy{name: name + "." + f.Name(), t: f.Type(), max: max}
	}
}

func init() {
	reg(zz+"vs.Fill", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
		l := p.label(a[0])
		m := a[1].(Iface)
		c, ok := m.v.(*Value)
		if !ok || c == nil {
			return nil
		}
		st := deref(m.t).Underlying().(*types.Struct)
		p.fillStruct(l, st, (*c).(StructV), int(a[2].(*Term).k), p.slice(a[3])...)
		return nil
	})
}
