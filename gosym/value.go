package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an interpreted Go value:
//
//	*Term            bool and integer kinds
//	float64          float kinds (concrete)
//	complex128       complex kinds (concrete)
//	string, *SymStr  strings
//	StructV, ArrayV  aggregates
//	*Value           pointers (cells); *ElemPtr for a symbolically indexed element
//	[]Value, *LazyBytes  slices
//	*MapV, *ChanV, *Closure, Iface, Tuple
//	UnsafeP          unsafe.Pointer
//	*Native          engine-side opaque objects
type Value = any

type StructV []Value
type ArrayV []Value
type Tuple []Value
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
	nat func(p *Path, args []Value) Value
}
type UnsafeP struct{ v Value }
type ElemPtr struct {
	arr []Value
	idx *Term
}
type Native struct {
	kind string
	v    any
}
type ChanV struct {
	buf    []Value
	cap    int
	closed bool
	et     types.Type
}

// SymStr is a string with symbolic content; bytes at and after n are zero.
type SymStr struct {
	n    *Term
	b    []*Term
	alts []Alt // when non-nil: exclusive and exhaustive alternatives
}
type Alt struct {
	c *Term
	s string
}

// LazyBytes is a []byte converted from a string whose length may be symbolic.
type LazyBytes struct {
	s   *SymStr
	arr []Value
	cap int
}

type mapEntry struct {
	k, v Value
	dead bool
}
type MapV struct {
	entries []*mapEntry
	index   map[string]*mapEntry
	sym     int
	kt, vt  types.Type
	live    int
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func intWidth(b *types.Basic) uint16 {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	default:
		return 64
	}
}
func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

// zero returns the zero value of t.
func zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.Basic:
		if t.Kind() == types.UntypedNil {
			panic("zero of untyped nil")
		}
		switch {
		case t.Info()&types.IsString != 0:
			return ""
		case t.Info()&types.IsBoolean != 0:
			return False
		case t.Info()&types.IsInteger != 0:
			return K(0, intWidth(t))
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Kind() == types.UnsafePointer:
			return UnsafeP{}
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		a := make(ArrayV, t.Len())
		if t.Len() > 0 {
			z := zero(t.Elem())
			switch z.(type) {
			case StructV, ArrayV:
				for i := range a {
					a[i] = zero(t.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Named:
		return zero(t.Underlying())
	case *types.Interface:
		return Iface{}
	case *types.Slice:
		return []Value(nil)
	case *types.Struct:
		s := make(StructV, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.TypeParam:
		panic("zero of type parameter " + t.String())
	}
	panic(fmt.Sprintf("zero: unexpected type %T %s", t, t))
}

// copyVal copies aggregates.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case StructV:
		r := make(StructV, len(v))
		for i, x := range v {
			switch x.(type) {
			case StructV, ArrayV:
				r[i] = copyVal(x)
			default:
				r[i] = x
			}
		}
		return r
	case ArrayV:
		r := make(ArrayV, len(v))
		for i, x := range v {
			switch x.(type) {
			case StructV, ArrayV:
				r[i] = copyVal(x)
			default:
				r[i] = x
			}
		}
		return r
	}
	return v
}

// store writes v in cell, in place for aggregates so that interior pointers stay valid.
func storeVal(cell *Value, v Value) {
	switch v := v.(type) {
	case StructV:
		if dst, ok := (*cell).(StructV); ok && len(dst) == len(v) {
			if len(v) > 0 && &dst[0] == &v[0] {
				return
			}
			tmp := copyVal(v).(StructV)
			for i := range dst {
				storeVal(&dst[i], tmp[i])
			}
			return
		}
		*cell = copyVal(v)
	case ArrayV:
		if dst, ok := (*cell).(ArrayV); ok && len(dst) == len(v) {
			if len(v) > 0 && &dst[0] == &v[0] {
				return
			}
			tmp := copyVal(v).(ArrayV)
			for i := range dst {
				storeVal(&dst[i], tmp[i])
			}
			return
		}
		*cell = copyVal(v)
	default:
		*cell = v
	}
}

func isNilVal(v Value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *Value:
		return v == nil
	case *ElemPtr:
		return v == nil
	case []Value:
		return v == nil
	case *LazyBytes:
		return v == nil
	case *MapV:
		return v == nil
	case *ChanV:
		return v == nil
	case *Closure:
		return v == nil
	case Iface:
		return v.t == nil
	case UnsafeP:
		return v.v == nil || isNilVal(v.v)
	case *Native:
		return v == nil
	}
	return false
}

// equals returns the boolean term x == y for operands of type t.
func (p *Path) equals(t types.Type, x, y Value) *Term {
	switch xv := x.(type) {
	case *Term:
		return p.c.Eq(xv, y.(*Term))
	case float64:
		return KB(xv == y.(float64))
	case complex128:
		return KB(xv == y.(complex128))
	case string, *SymStr:
		return p.strEq(x, y)
	case *Value:
		if yv, ok := y.(*Value); ok {
			return KB(xv == yv)
		}
		if ye, ok := y.(*ElemPtr); ok {
			p.concElem(ye)
			return KB(xv == &ye.arr[ye.idx.k])
		}
		if yn, ok := y.(*Native); ok {
			return KB(xv == nil && yn == nil)
		}
		if _, ok := y.(UnsafeP); ok {
			return False
		}
	case *ElemPtr:
		p.concElem(xv)
		return p.equals(t, &xv.arr[xv.idx.k], y)
	case *Native:
		if yv, ok := y.(*Native); ok {
			return KB(xv == yv)
		}
		return KB(isNilVal(x) && isNilVal(y))
	case UnsafeP:
		yv := y.(UnsafeP)
		return KB(xv.v == yv.v || isNilVal(xv.v) && isNilVal(yv.v))
	case *ChanV:
		return KB(xv == y.(*ChanV))
	case *MapV:
		return KB(xv == nil && isNilVal(y))
	case []Value, *LazyBytes:
		return KB(isNilVal(x) && isNilVal(y))
	case *Closure:
		return KB(isNilVal(x) && isNilVal(y))
	case Iface:
		yi := y.(Iface)
		if xv.t == nil || yi.t == nil {
			return KB(xv.t == nil && yi.t == nil)
		}
		if !types.Identical(xv.t, yi.t) {
			return False
		}
		if !types.Comparable(xv.t) {
			p.runtimePanic("comparing uncomparable type " + xv.t.String())
		}
		return p.equals(xv.t, xv.v, yi.v)
	case StructV:
		st := t.Underlying().(*types.Struct)
		yv := y.(StructV)
		r := True
		for i := range xv {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = p.c.And(r, p.equals(st.Field(i).Type(), xv[i], yv[i]))
			if r == False {
				return r
			}
		}
		return r
	case ArrayV:
		at := t.Underlying().(*types.Array)
		yv := y.(ArrayV)
		if len(xv) > 0 {
			if _, ok := xv[0].(*Term); ok {
				return p.eqBytes(terms(xv), terms(yv))
			}
		}
		r := True
		for i := range xv {
			r = p.c.And(r, p.equals(at.Elem(), xv[i], yv[i]))
			if r == False {
				return r
			}
		}
		return r
	}
	panic(p.unsupported(fmt.Sprintf("equals on %T and %T (%v)", x, y, t)))
}

func terms(a []Value) []*Term {
	r := make([]*Term, len(a))
	for i := range a {
		r[i] = a[i].(*Term)
	}
	return r
}
func values(a []*Term) []Value {
	r := make([]Value, len(a))
	for i := range a {
		r[i] = a[i]
	}
	return r
}

// concKey returns a canonical key for a fully concrete comparable value.
func concKey(v Value, sb *strings.Builder) bool {
	switch v := v.(type) {
	case *Term:
		if v.op != OpConst {
			return false
		}
		fmt.Fprintf(sb, "i%d;", v.k)
	case string:
		fmt.Fprintf(sb, "s%d:%s;", len(v), v)
	case *SymStr:
		return false
	case float64:
		fmt.Fprintf(sb, "f%x;", math.Float64bits(v))
	case *Value:
		fmt.Fprintf(sb, "p%p;", v)
	case *Native:
		fmt.Fprintf(sb, "n%p;", v)
	case *ChanV:
		fmt.Fprintf(sb, "c%p;", v)
	case Iface:
		if v.t == nil {
			sb.WriteString("nil;")
			return true
		}
		sb.WriteString("I" + types.TypeString(v.t, nil) + "=")
		return concKey(v.v, sb)
	case StructV:
		sb.WriteString("{")
		for _, x := range v {
			if !concKey(x, sb) {
				return false
			}
		}
		sb.WriteString("}")
	case ArrayV:
		sb.WriteString("[")
		for _, x := range v {
			if !concKey(x, sb) {
				return false
			}
		}
		sb.WriteString("]")
	default:
		return false
	}
	return true
}

func newMap(kt, vt types.Type) *MapV {
	return &MapV{index: map[string]*mapEntry{}, kt: kt, vt: vt}
}

func (p *Path) mapFind(m *MapV, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	var sb strings.Builder
	conc := concKey(k, &sb)
	if conc {
		if e := m.index[sb.String()]; e != nil {
			return e
		}
		if m.sym == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if conc {
			if _, isSym := e.k.(*SymStr); !isSym {
				var kb strings.Builder
				if concKey(e.k, &kb) {
					continue // concrete keys were looked up in the index
				}
			}
		}
		if p.branch(p.equals(m.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *MapV, k, v Value) {
	if m == nil {
		p.panicStr("assignment to entry in nil map")
	}
	if e := p.mapFind(m, k); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEntry{k: copyVal(k), v: copyVal(v)}
	var sb strings.Builder
	if concKey(k, &sb) {
		m.index[sb.String()] = e
	} else {
		m.sym++
	}
	m.entries = append(m.entries, e)
	m.live++
}

func (p *Path) mapDelete(m *MapV, k Value) {
	if m == nil {
		return
	}
	if e := p.mapFind(m, k); e != nil {
		e.dead = true
		m.live--
		var sb strings.Builder
		if concKey(e.k, &sb) {
			delete(m.index, sb.String())
		} else {
			m.sym--
		}
		n := m.entries[:0:0]
		for _, x := range m.entries {
			if !x.dead {
				n = append(n, x)
			}
		}
		m.entries = n
	}
}
