package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// JSON documents. A document without symbolic content is its text; any other document is a
// tree kept by the path and referred to by a concrete handle of the same outer shape.

type jnode struct {
	k   byte  // n null, t bool, # number, s string (of the number num when not nil), a array, o object
	b   *Term // t
	num *Term // #, 64 bits
	sgn bool
	txt string  // # when num is nil
	s   Value   // s
	raw []Value // s: base64 of these bytes when not nil
	a   []*jnode
	f   []jfield
}
type jfield struct {
	name string
	v    *jnode
	cond bool // absent exactly when the value is the zero value
}

var (
	anyType  = types.NewInterfaceType(nil, nil)
	anySlice = types.NewSlice(anyType)
	anyMap   = types.NewMap(types.Typ[types.String], anyType)
)

var jnull = &jnode{k: 'n'}

const jmark = "\x7f"

type jopts struct {
	fold    bool // names match regardless of case
	nodup   bool
	useNum  types.Type // json.Number type for numbers in interfaces
	unknown bool       // unknown fields are errors
}

type jsonState struct {
	nodes   []*jnode
	index   map[string]int
	streams map[*Value]*jstream
}
type jstream struct {
	r    Iface
	read bool
	text string
	err  Iface
	opts jopts
	fork bool
	numT types.Type
}

func (p *Path) jstate() *jsonState {
	if s, ok := p.side["json"].(*jsonState); ok {
		return s
	}
	s := &jsonState{index: map[string]int{}, streams: map[*Value]*jstream{}}
	p.side["json"] = s
	return s
}

func (n *jnode) zeroTerm(p *Path) *Term {
	switch n.k {
	case 't':
		return p.c.Not(n.b)
	case '#':
		if n.num != nil {
			return p.c.Eq(n.num, K(0, 64))
		}
		return KB(n.txt == "0")
	case 's':
		if n.num != nil {
			return p.c.Eq(n.num, K(0, 64))
		}
		if n.raw != nil {
			return KB(len(n.raw) == 0)
		}
		return p.c.Eq(p.strLen(n.s), K(0, 64))
	case 'n':
		return True
	case 'a':
		return KB(len(n.a) == 0)
	}
	return False
}

// jtext renders a tree without symbolic content.
func (p *Path) jtext(n *jnode, sb *strings.Builder) bool {
	switch n.k {
	case 'n':
		sb.WriteString("null")
	case 't':
		if n.b.op != OpConst {
			return false
		}
		sb.WriteString(strconv.FormatBool(n.b.k != 0))
	case '#':
		switch {
		case n.num == nil:
			sb.WriteString(n.txt)
		case n.num.op != OpConst:
			return false
		case n.sgn:
			sb.WriteString(strconv.FormatInt(int64(n.num.k), 10))
		default:
			sb.WriteString(strconv.FormatUint(n.num.k, 10))
		}
	case 's':
		if n.num != nil {
			if n.num.op != OpConst {
				return false
			}
			if n.sgn {
				sb.WriteString(strconv.Quote(strconv.FormatInt(int64(n.num.k), 10)))
			} else {
				sb.WriteString(strconv.Quote(strconv.FormatUint(n.num.k, 10)))
			}
			break
		}
		if n.raw != nil {
			b := make([]byte, len(n.raw))
			for i, x := range n.raw {
				t := p.known(x.(*Term))
				if t.op != OpConst {
					return false
				}
				b[i] = byte(t.k)
			}
			sb.WriteString(`"` + base64.StdEncoding.EncodeToString(b) + `"`)
			break
		}
		s, ok := n.s.(string)
		if !ok {
			return false
		}
		q, _ := json.Marshal(s)
		sb.Write(q)
	case 'a':
		sb.WriteByte('[')
		for i, x := range n.a {
			if i > 0 {
				sb.WriteByte(',')
			}
			if !p.jtext(x, sb) {
				return false
			}
		}
		sb.WriteByte(']')
	case 'o':
		sb.WriteByte('{')
		first := true
		for _, f := range n.f {
			if f.cond {
				z := f.v.zeroTerm(p)
				if z.op != OpConst {
					return false
				}
				if z.k != 0 {
					continue
				}
			}
			if !first {
				sb.WriteByte(',')
			}
			first = false
			q, _ := json.Marshal(f.name)
			sb.Write(q)
			sb.WriteByte(':')
			if !p.jtext(f.v, sb) {
				return false
			}
		}
		sb.WriteByte('}')
	}
	return true
}

// jkey identifies a tree by its content.
func (p *Path) jkey(n *jnode, sb *strings.Builder) {
	sb.WriteByte(n.k)
	switch n.k {
	case 't':
		fmt.Fprintf(sb, "%p", n.b)
		if n.b.op == OpConst {
			fmt.Fprintf(sb, "=%d", n.b.k)
		}
	case '#':
		if n.num == nil {
			sb.WriteString(n.txt)
		} else if n.num.op == OpConst {
			fmt.Fprintf(sb, "%d,%v", n.num.k, n.sgn)
		} else {
			fmt.Fprintf(sb, "%p,%v", n.num, n.sgn)
		}
	case 's':
		if n.num != nil {
			fmt.Fprintf(sb, "num%p,%v", n.num, n.sgn)
		} else if n.raw != nil {
			sb.WriteString("raw")
			for _, x := range n.raw {
				if t := x.(*Term); t.op == OpConst {
					fmt.Fprintf(sb, "%d,", t.k)
				} else {
					fmt.Fprintf(sb, "%p,", t)
				}
			}
		} else {
			sb.WriteString(strconv.Quote(strKey(n.s)))
		}
	case 'a':
		for _, x := range n.a {
			p.jkey(x, sb)
			sb.WriteByte(',')
		}
		sb.WriteByte(']')
	case 'o':
		for _, f := range n.f {
			fmt.Fprintf(sb, "%q:%v:", f.name, f.cond)
			p.jkey(f.v, sb)
			sb.WriteByte(',')
		}
		sb.WriteByte('}')
	}
}

// jascii makes sure that symbolic strings of the tree survive the text form unchanged.
func (p *Path) jascii(n *jnode) {
	switch n.k {
	case 's':
		if n.raw != nil || n.num != nil {
			return
		}
		switch s := n.s.(type) {
		case string:
			if !utf8.ValidString(s) {
				n.s = strings.ToValidUTF8(s, "\ufffd")
			}
		case *SymStr:
			if s.alts != nil {
				for _, a := range s.alts {
					if !utf8.ValidString(a.s) {
						panic(p.unsupported("JSON text of invalid UTF-8"))
					}
				}
				return
			}
			if !p.branch(p.allASCII(s.b)) {
				panic(p.unsupported("JSON text of a non-ASCII symbolic string"))
			}
		}
	case 'a':
		for _, x := range n.a {
			p.jascii(x)
		}
	case 'o':
		for _, f := range n.f {
			p.jascii(f.v)
		}
	}
}

// jdoc returns the document text of a tree.
func (p *Path) jdoc(n *jnode) string {
	p.jascii(n)
	var sb strings.Builder
	if p.jtext(n, &sb) {
		return sb.String()
	}
	return p.jhandle(n)
}

func (p *Path) jhandle(n *jnode) string {
	st := p.jstate()
	var kb strings.Builder
	p.jkey(n, &kb)
	id, ok := st.index[kb.String()]
	if !ok {
		id = len(st.nodes)
		st.nodes = append(st.nodes, n)
		st.index[kb.String()] = id
	}
	switch n.k {
	case 'o':
		return fmt.Sprintf(`{"%s":%d}`, jmark, id)
	case 'a':
		return fmt.Sprintf(`["%s",%d]`, jmark, id)
	}
	return fmt.Sprintf(`"%s%d"`, jmark, id)
}

// ---------------------------------------------------------------- parsing

type jparser struct {
	p *Path
	s string
	i int
}
type jsyntax struct{ incomplete bool }

func (j *jparser) ws() {
	for j.i < len(j.s) && strings.IndexByte(" \t\r\n", j.s[j.i]) >= 0 {
		j.i++
	}
}
func (j *jparser) bad() { panic(jsyntax{j.i >= len(j.s)}) }
func (j *jparser) lit(w string) {
	for k := 0; k < len(w); k++ {
		if j.i >= len(j.s) || j.s[j.i] != w[k] {
			j.bad()
		}
		j.i++
	}
}
func (j *jparser) str() string {
	st := j.i
	j.i++
	for {
		if j.i >= len(j.s) {
			j.bad()
		}
		c := j.s[j.i]
		if c < 0x20 {
			j.bad()
		}
		j.i++
		if c == '\\' {
			if j.i >= len(j.s) {
				j.bad()
			}
			j.i++
		} else if c == '"' {
			break
		}
	}
	var out string
	if json.Unmarshal([]byte(j.s[st:j.i]), &out) != nil {
		panic(jsyntax{})
	}
	return out
}
func (j *jparser) handle(s string) *jnode {
	if !strings.HasPrefix(s, jmark) {
		return nil
	}
	return j.p.jnode(s[1:])
}
func (p *Path) jnode(id string) *jnode {
	n, err := strconv.Atoi(id)
	if err != nil || n < 0 || n >= len(p.jstate().nodes) {
		panic(p.unsupported("unknown JSON handle"))
	}
	return p.jstate().nodes[n]
}
func (j *jparser) value() *jnode {
	j.ws()
	if j.i >= len(j.s) {
		j.bad()
	}
	switch c := j.s[j.i]; {
	case c == '{':
		j.i++
		n := &jnode{k: 'o'}
		j.ws()
		if j.i < len(j.s) && j.s[j.i] == '}' {
			j.i++
			return n
		}
		for {
			j.ws()
			if j.i >= len(j.s) || j.s[j.i] != '"' {
				j.bad()
			}
			k := j.str()
			j.ws()
			j.lit(":")
			v := j.value()
			n.f = append(n.f, jfield{name: k, v: v})
			j.ws()
			if j.i < len(j.s) && j.s[j.i] == ',' {
				j.i++
				continue
			}
			j.lit("}")
			break
		}
		if len(n.f) == 1 && n.f[0].name == jmark {
			return j.p.jnode(n.f[0].v.txt)
		}
		return n
	case c == '[':
		j.i++
		n := &jnode{k: 'a', a: []*jnode{}}
		j.ws()
		if j.i < len(j.s) && j.s[j.i] == ']' {
			j.i++
			return n
		}
		for {
			if j.i < len(j.s) && strings.HasPrefix(j.s[j.i:], `"`+jmark+`",`) {
				j.i += 4
				v := j.value()
				j.lit("]")
				return j.p.jnode(v.txt)
			}
			n.a = append(n.a, j.value())
			j.ws()
			if j.i < len(j.s) && j.s[j.i] == ',' {
				j.i++
				continue
			}
			j.lit("]")
			break
		}
		return n
	case c == '"':
		s := j.str()
		if h := j.handle(s); h != nil {
			return h
		}
		return &jnode{k: 's', s: s}
	case c == 't':
		j.lit("true")
		return &jnode{k: 't', b: True}
	case c == 'f':
		j.lit("false")
		return &jnode{k: 't', b: False}
	case c == 'n':
		j.lit("null")
		return jnull
	case c == '-' || c >= '0' && c <= '9':
		st := j.i
		digits := func() {
			k := j.i
			for j.i < len(j.s) && j.s[j.i] >= '0' && j.s[j.i] <= '9' {
				j.i++
			}
			if k == j.i {
				j.bad()
			}
		}
		if c == '-' {
			j.i++
		}
		if j.i < len(j.s) && j.s[j.i] == '0' {
			j.i++
		} else {
			digits()
		}
		if j.i < len(j.s) && j.s[j.i] == '.' {
			j.i++
			digits()
		}
		if j.i < len(j.s) && (j.s[j.i] == 'e' || j.s[j.i] == 'E') {
			j.i++
			if j.i < len(j.s) && (j.s[j.i] == '+' || j.s[j.i] == '-') {
				j.i++
			}
			digits()
		}
		return &jnode{k: '#', txt: j.s[st:j.i]}
	}
	j.bad()
	return nil
}

// jfirst parses the first value of s; incomplete tells that more text could complete it.
func (p *Path) jfirst(s string) (n *jnode, rest string, ok, incomplete bool) {
	defer func() {
		if r := recover(); r != nil {
			sx, isSx := r.(jsyntax)
			if !isSx {
				panic(r)
			}
			n, ok, incomplete = nil, false, sx.incomplete
		}
	}()
	j := &jparser{p: p, s: s}
	n = j.value()
	return n, s[j.i:], true, false
}

// jparse parses a whole document.
func (p *Path) jparse(doc Value) (*jnode, bool) {
	s, ok := doc.(string)
	if !ok {
		switch x := doc.(type) {
		case *SymStr:
			if x.alts != nil {
				s = p.pickAlt(x)
				break
			}
			panic(p.unsupported("JSON parsing of symbolic text"))
		default:
			panic(p.unsupported(fmt.Sprintf("JSON parsing of %T", doc)))
		}
	}
	n, rest, ok, _ := p.jfirst(s)
	if !ok || strings.Trim(rest, " \t\r\n") != "" {
		return nil, false
	}
	return n, true
}

// ---------------------------------------------------------------- Go types

type jfieldInfo struct {
	name  string
	path  []int
	typ   types.Type
	omit  bool
	omitz bool
	quote bool
	level int
	tag   bool
}

var jfieldCache = map[types.Type][]jfieldInfo{}

func (p *Path) jfields(t types.Type) []jfieldInfo {
	w := p.w.e.world
	w.shMu.Lock()
	defer w.shMu.Unlock()
	if r, ok := jfieldCache[t]; ok {
		return r
	}
	var all []jfieldInfo
	var walk func(st *types.Struct, path []int, depth int)
	walk = func(st *types.Struct, path []int, depth int) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			name, opts, _ := strings.Cut(tag, ",")
			full := append(append([]int(nil), path...), i)
			if f.Anonymous() && name == "" {
				ft := f.Type()
				if u, ok := ft.Underlying().(*types.Pointer); ok {
					ft = u.Elem()
				}
				if s, ok := ft.Underlying().(*types.Struct); ok && depth < 4 {
					walk(s, full, depth+1)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			fi := jfieldInfo{name: name, path: full, typ: f.Type(), level: depth, tag: name != ""}
			if name == "" {
				fi.name = f.Name()
			}
			for _, o := range strings.Split(opts, ",") {
				switch o {
				case "omitempty":
					fi.omit = true
				case "omitzero":
					fi.omitz = true
				case "string":
					fi.quote = true
				}
			}
			all = append(all, fi)
		}
	}
	walk(t.Underlying().(*types.Struct), nil, 0)
	best := map[string]int{}
	for _, f := range all {
		if l, ok := best[f.name]; !ok || f.level < l {
			best[f.name] = f.level
		}
	}
	var out []jfieldInfo
	for _, f := range all {
		if best[f.name] == f.level {
			out = append(out, f)
		}
	}
	jfieldCache[t] = out
	return out
}

// fieldAt walks an index path, following embedded pointers; nil when one of them is nil.
func (p *Path) fieldAt(cell *Value, t types.Type, path []int, alloc bool) (*Value, types.Type) {
	for _, i := range path {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			*cell = p.force(*cell)
			c := (*cell).(*Value)
			if c == nil {
				if !alloc {
					return nil, nil
				}
				nc := new(Value)
				*nc = zero(pt.Elem())
				*cell = nc
				c = nc
			}
			cell, t = c, pt.Elem()
		}
		st := t.Underlying().(*types.Struct)
		sv := (*cell).(StructV)
		cell, t = &sv[i], st.Field(i).Type()
	}
	return cell, t
}

func (p *Path) noErr(v Value) (Iface, bool) {
	e, ok := v.(Iface)
	return e, !ok || e.t == nil
}

func isNumberType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Number" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "json")
}

// jenc builds the tree of a Go value; addr is its cell when it is addressable.
func (p *Path) jenc(fr *frame, t types.Type, v Value, addr *Value) (*jnode, Value) {
	w := p.w.e.world
	if it, ok := t.Underlying().(*types.Interface); ok {
		_ = it
		x, _ := v.(Iface)
		if x.t == nil {
			return jnull, nil
		}
		return p.jenc(fr, x.t, x.v, nil)
	}
	_, isPtr := t.Underlying().(*types.Pointer)
	if isPtr && isNilVal(v) {
		return jnull, nil
	}
	call := func(name string) (Value, bool, Value) {
		var f *ssa.Function
		recv := v
		if f = w.methodByName(t, name); f == nil && !isPtr && addr != nil {
			if f = w.methodByName(types.NewPointer(t), name); f != nil {
				recv = addr
			}
		}
		if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 2 {
			return nil, false, nil
		}
		r := p.call(fr, f, []Value{copyVal(recv)}, nil).(Tuple)
		if e, ok := p.noErr(r[1]); !ok {
			return nil, true, e
		}
		return p.bytesStr(r[0]), true, nil
	}
	if doc, ok, err := call("MarshalJSON"); ok {
		if err != nil {
			return nil, err
		}
		n, good := p.jparse(doc)
		if !good {
			return nil, p.mkErr("json: error calling MarshalJSON")
		}
		return n, nil
	}
	if s, ok, err := call("MarshalText"); ok {
		if err != nil {
			return nil, err
		}
		return &jnode{k: 's', s: s}, nil
	}
	if isPtr {
		c, ok := v.(*Value)
		if !ok {
			panic(p.unsupported(fmt.Sprintf("JSON encoding of %T", v)))
		}
		return p.jenc(fr, deref(t), *c, c)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if isNumberType(t) {
				s, ok := v.(string)
				if !ok {
					panic(p.unsupported("symbolic json.Number"))
				}
				if s == "" {
					s = "0"
				}
				if strings.HasPrefix(s, jmark) {
					return p.jnode(s[1:]), nil
				}
				return &jnode{k: '#', txt: s}, nil
			}
			if s, ok := v.(string); ok && strings.HasPrefix(s, jmark) {
				return p.jnode(s[1:]), nil
			}
			return &jnode{k: 's', s: v}, nil
		case u.Info()&types.IsBoolean != 0:
			return &jnode{k: 't', b: p.known(v.(*Term))}, nil
		case u.Info()&types.IsInteger != 0:
			x := p.known(v.(*Term))
			if isSigned(t) {
				return &jnode{k: '#', num: p.c.Sext(x, 64), sgn: true}, nil
			}
			return &jnode{k: '#', num: p.c.Zext(x, 64)}, nil
		case u.Info()&types.IsFloat != 0:
			if n, ok := v.(*Native); ok && n.kind == "jsonnum" {
				return n.v.(*jnode), nil
			}
			b, err := json.Marshal(v.(float64))
			if err != nil {
				return nil, p.mkErr(err.Error())
			}
			return &jnode{k: '#', txt: string(b)}, nil
		}
	case *types.Struct:
		cell := addr
		if cell == nil {
			c := v
			cell = &c
		}
		n := &jnode{k: 'o'}
		for _, fi := range p.jfields(t) {
			fc, ft := p.fieldAt(cell, t, fi.path, false)
			if fc == nil {
				continue
			}
			*fc = p.force(*fc)
			if fi.quote {
				panic(p.unsupported("json string option"))
			}
			cond := false
			if fi.omit {
				skip, sym := p.jempty(ft, *fc)
				if skip {
					continue
				}
				cond = sym
			}
			if fi.omitz {
				z := p.equals(ft, *fc, zero(ft))
				if p.branch(z) {
					continue
				}
			}
			fa := fc
			if addr == nil {
				fa = nil
			}
			c, err := p.jenc(fr, ft, *fc, fa)
			if err != nil {
				return nil, err
			}
			if cond && c.k == '#' || cond && c.k == 's' || cond && c.k == 't' {
				n.f = append(n.f, jfield{fi.name, c, true})
				continue
			}
			if cond {
				panic(p.unsupported("omitempty of a symbolic value with its own encoding"))
			}
			n.f = append(n.f, jfield{fi.name, c, false})
		}
		return n, nil
	case *types.Map:
		m := v.(*MapV)
		if m == nil {
			return jnull, nil
		}
		n := &jnode{k: 'o'}
		for _, e := range m.entries {
			if e.dead {
				continue
			}
			k, ok := e.k.(string)
			if !ok {
				if kt, isT := e.k.(*Term); isT && kt.op == OpConst {
					if isSigned(u.Key()) {
						k = strconv.FormatInt(kt.sval(), 10)
					} else {
						k = strconv.FormatUint(kt.k, 10)
					}
				} else {
					panic(p.unsupported("symbolic key of a JSON object"))
				}
			}
			c, err := p.jenc(fr, u.Elem(), e.v, nil)
			if err != nil {
				return nil, err
			}
			n.f = append(n.f, jfield{k, c, false})
		}
		sort.SliceStable(n.f, func(i, j int) bool { return n.f[i].name < n.f[j].name })
		return n, nil
	case *types.Slice:
		if isNilVal(v) {
			return jnull, nil
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && w.methodByName(types.NewPointer(u.Elem()), "MarshalJSON") == nil {
			s := p.bytesStr(v)
			if cs, ok := s.(string); ok {
				return &jnode{k: 's', s: base64.StdEncoding.EncodeToString([]byte(cs))}, nil
			}
			raw := values(p.fixLen(s))
			if raw == nil {
				raw = []Value{}
			}
			return &jnode{k: 's', raw: raw}, nil
		}
		n := &jnode{k: 'a', a: []*jnode{}}
		xs := p.slice(v)
		for i := range xs {
			c, err := p.jenc(fr, u.Elem(), xs[i], &xs[i])
			if err != nil {
				return nil, err
			}
			n.a = append(n.a, c)
		}
		return n, nil
	case *types.Array:
		n := &jnode{k: 'a', a: []*jnode{}}
		for _, x := range v.(ArrayV) {
			c, err := p.jenc(fr, u.Elem(), x, nil)
			if err != nil {
				return nil, err
			}
			n.a = append(n.a, c)
		}
		return n, nil
	case *types.Signature, *types.Chan:
		return nil, p.mkErr("json: unsupported type: " + t.String())
	}
	panic(p.unsupported("JSON encoding of " + t.String()))
}

// jempty tells whether omitempty drops a value, or that it depends on symbolic content.
func (p *Path) jempty(t types.Type, v Value) (skip, sym bool) {
	var z *Term
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, ok := v.(*Native); ok {
			panic(p.unsupported("omitempty of a symbolic float"))
		}
		z = p.equals(t, v, zero(t))
		if u.Info()&types.IsString != 0 {
			z = p.c.Eq(p.strLen(v), K(0, 64))
		}
	case *types.Pointer, *types.Interface:
		return isNilVal(v), false
	case *types.Slice:
		if isNilVal(v) {
			return true, false
		}
		return p.branch(p.c.Eq(p.sliceLen(v), K(0, 64))), false
	case *types.Map:
		m := v.(*MapV)
		return m == nil || m.live == 0, false
	case *types.Array:
		return u.Len() == 0, false
	default:
		return false, false
	}
	switch p.litValue(z) {
	case 0:
		return false, false
	case 1:
		return true, false
	}
	return false, true
}

// ---------------------------------------------------------------- decoding

func (p *Path) jtypeErr(n *jnode, t types.Type) Value {
	k := map[byte]string{'n': "null", 't': "bool", '#': "number", 's': "string", 'a': "array", 'o': "object"}[n.k]
	return p.mkErr("json: cannot unmarshal " + k + " into Go value of type " + t.String())
}

func (p *Path) jany(n *jnode, o jopts) Iface {
	tt := func(b types.BasicKind) types.Type { return types.Typ[b] }
	switch n.k {
	case 't':
		return Iface{tt(types.Bool), n.b}
	case 's':
		return Iface{tt(types.String), p.jstring(n)}
	case '#':
		if o.useNum != nil {
			return Iface{o.useNum, p.jnumText(n)}
		}
		if n.num == nil {
			f, _ := strconv.ParseFloat(n.txt, 64)
			return Iface{tt(types.Float64), f}
		}
		if n.num.op == OpConst {
			if n.sgn {
				return Iface{tt(types.Float64), float64(int64(n.num.k))}
			}
			return Iface{tt(types.Float64), float64(n.num.k)}
		}
		lim := K(1<<53, 64)
		var ok *Term
		if n.sgn {
			ok = p.c.And(p.c.Sle(n.num, lim), p.c.Sle(K64(-(1<<53)), n.num))
		} else {
			ok = p.c.Ule(n.num, lim)
		}
		if !p.branch(ok) {
			panic(p.unsupported("JSON number beyond the exact range of float64"))
		}
		return Iface{tt(types.Float64), &Native{"jsonnum", n}}
	case 'a':
		r := make([]Value, len(n.a))
		for i, x := range n.a {
			r[i] = p.jany(x, o)
		}
		return Iface{anySlice, r}
	case 'o':
		m := newMap(tt(types.String), anyType)
		for _, f := range n.f {
			if f.cond && p.branch(f.v.zeroTerm(p)) {
				continue
			}
			p.mapSet(m, f.name, p.jany(f.v, o))
		}
		return Iface{anyMap, m}
	}
	return Iface{}
}

func (p *Path) jnumText(n *jnode) Value {
	if n.num == nil {
		return n.txt
	}
	if n.num.op == OpConst {
		var sb strings.Builder
		p.jtext(n, &sb)
		return sb.String()
	}
	h := p.jhandle(n)
	return h[1 : len(h)-1]
}

func (p *Path) jstring(n *jnode) Value {
	if n.num != nil {
		var sb strings.Builder
		if !p.jtext(n, &sb) {
			h := p.jhandle(n)
			return h[1 : len(h)-1]
		}
		s := sb.String()
		return s[1 : len(s)-1]
	}
	if n.raw != nil {
		var sb strings.Builder
		if p.jtext(n, &sb) {
			s := sb.String()
			return s[1 : len(s)-1]
		}
		return p.b64(OpB64Std, '=', terms(n.raw))
	}
	return n.s
}

// jdec stores a tree in a cell of type t; it returns the first error and goes on, as encoding/json does.
func (p *Path) jdec(fr *frame, n *jnode, t types.Type, cell *Value, o jopts) Value {
	w := p.w.e.world
	pt, isPtr := t.Underlying().(*types.Pointer)
	if !isPtr {
		if _, isI := t.Underlying().(*types.Interface); !isI {
			if f := w.methodByName(types.NewPointer(t), "UnmarshalJSON"); f != nil && f.Signature.Params().Len() == 1 && f.Signature.Results().Len() == 1 {
				doc := p.strBytes(p.jdoc(n))
				r := p.call(fr, f, []Value{cell, doc}, nil)
				if e, ok := p.noErr(r); !ok {
					return e
				}
				return nil
			}
			if f := w.methodByName(types.NewPointer(t), "UnmarshalText"); f != nil && n.k != 'n' && f.Signature.Params().Len() == 1 && f.Signature.Results().Len() == 1 {
				if n.k != 's' {
					return p.jtypeErr(n, t)
				}
				r := p.call(fr, f, []Value{cell, p.strBytes(p.jstring(n))}, nil)
				if e, ok := p.noErr(r); !ok {
					return e
				}
				return nil
			}
		}
	}
	if isPtr {
		if n.k == 'n' {
			storeVal(cell, (*Value)(nil))
			return nil
		}
		c, _ := (*cell).(*Value)
		if c == nil {
			c = new(Value)
			*c = zero(pt.Elem())
			storeVal(cell, c)
		}
		return p.jdec(fr, n, pt.Elem(), c, o)
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if cur, ok := (*cell).(Iface); ok && cur.t != nil && n.k != 'n' {
			if ct, ok := cur.t.Underlying().(*types.Pointer); ok && !isNilVal(cur.v) {
				return p.jdec(fr, n, ct.Elem(), cur.v.(*Value), o)
			}
		}
		if n.k == 'n' {
			storeVal(cell, Iface{})
			return nil
		}
		if u.NumMethods() > 0 {
			return p.jtypeErr(n, t)
		}
		storeVal(cell, p.jany(n, o))
		return nil
	case *types.Basic:
		if n.k == 'n' {
			return nil
		}
		switch {
		case u.Info()&types.IsString != 0:
			if n.k == '#' && isNumberType(t) {
				storeVal(cell, p.jnumText(n))
				return nil
			}
			if n.k != 's' {
				return p.jtypeErr(n, t)
			}
			storeVal(cell, p.jstring(n))
			return nil
		case u.Info()&types.IsBoolean != 0:
			if n.k != 't' {
				return p.jtypeErr(n, t)
			}
			storeVal(cell, n.b)
			return nil
		case u.Info()&types.IsInteger != 0:
			if n.k != '#' {
				return p.jtypeErr(n, t)
			}
			return p.jint(n, t, u, cell)
		case u.Info()&types.IsFloat != 0:
			if n.k != '#' {
				return p.jtypeErr(n, t)
			}
			x := p.jany(n, jopts{})
			storeVal(cell, x.v)
			return nil
		}
	case *types.Slice:
		if n.k == 'n' {
			storeVal(cell, []Value(nil))
			return nil
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && n.k == 's' {
			if n.raw != nil {
				storeVal(cell, append([]Value{}, n.raw...))
				return nil
			}
			s, ok := n.s.(string)
			if !ok {
				panic(p.unsupported("base64 decoding of a symbolic JSON string"))
			}
			d, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				return p.mkErr(err.Error())
			}
			storeVal(cell, p.strBytes(string(d)))
			return nil
		}
		if n.k != 'a' {
			return p.jtypeErr(n, t)
		}
		r := make([]Value, len(n.a))
		var first Value
		for i, x := range n.a {
			r[i] = zero(u.Elem())
			if e := p.jdec(fr, x, u.Elem(), &r[i], o); e != nil && first == nil {
				first = e
			}
		}
		storeVal(cell, r)
		return first
	case *types.Map:
		if n.k == 'n' {
			storeVal(cell, (*MapV)(nil))
			return nil
		}
		if n.k != 'o' {
			return p.jtypeErr(n, t)
		}
		m, _ := (*cell).(*MapV)
		if m == nil {
			m = newMap(u.Key(), u.Elem())
			storeVal(cell, m)
		}
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			panic(p.unsupported("JSON object into a map without string keys"))
		}
		var first Value
		seen := map[string]bool{}
		for _, f := range n.f {
			if o.nodup && seen[f.name] {
				return p.mkErr("json: duplicate key")
			}
			seen[f.name] = true
			if f.cond && p.branch(f.v.zeroTerm(p)) {
				continue
			}
			c := new(Value)
			*c = zero(u.Elem())
			if e := p.jdec(fr, f.v, u.Elem(), c, o); e != nil && first == nil {
				first = e
			}
			p.mapSet(m, f.name, *c)
		}
		return first
	case *types.Struct:
		if n.k == 'n' {
			return nil
		}
		if n.k != 'o' {
			return p.jtypeErr(n, t)
		}
		var first Value
		seen := map[string]bool{}
		fs := p.jfields(t)
		for _, f := range n.f {
			if o.nodup && seen[f.name] {
				return p.mkErr("json: duplicate key")
			}
			seen[f.name] = true
			var fi *jfieldInfo
			for i := range fs {
				if fs[i].name == f.name {
					fi = &fs[i]
					break
				}
			}
			if fi == nil && o.fold {
				for i := range fs {
					if strings.EqualFold(fs[i].name, f.name) {
						fi = &fs[i]
						break
					}
				}
			}
			if fi == nil {
				if o.unknown && !(f.cond && p.branch(f.v.zeroTerm(p))) && first == nil {
					first = p.mkErr("json: unknown field " + strconv.Quote(f.name))
				}
				continue
			}
			if fi.quote {
				panic(p.unsupported("json string option"))
			}
			fc, ft := p.fieldAt(cell, t, fi.path, true)
			if f.cond && (f.v.k == 's' && f.v.num != nil || !p.plainTarget(ft, *fc)) && p.branch(f.v.zeroTerm(p)) {
				continue
			}
			if e := p.jdec(fr, f.v, ft, fc, o); e != nil && first == nil {
				first = e
			}
		}
		return first
	case *types.Array:
		if n.k != 'a' {
			return p.jtypeErr(n, t)
		}
	}
	panic(p.unsupported("JSON decoding into " + t.String()))
}

// plainTarget tells that decoding a zero value there is the same as not decoding at all.
func (p *Path) plainTarget(t types.Type, cur Value) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || p.w.e.world.methodByName(types.NewPointer(t), "UnmarshalJSON") != nil {
		return false
	}
	_ = b
	z := p.equals(t, cur, zero(t))
	return z == True
}

func (p *Path) jint(n *jnode, t types.Type, u *types.Basic, cell *Value) Value {
	width := intWidth(u)
	sg := isSigned(t)
	if n.num == nil {
		if sg {
			x, err := strconv.ParseInt(n.txt, 10, int(width))
			if err != nil {
				return p.jtypeErr(n, t)
			}
			storeVal(cell, K(uint64(x), width))
			return nil
		}
		x, err := strconv.ParseUint(n.txt, 10, int(width))
		if err != nil {
			return p.jtypeErr(n, t)
		}
		storeVal(cell, K(x, width))
		return nil
	}
	ok := True
	switch {
	case sg && n.sgn && width < 64:
		lim := int64(1) << (width - 1)
		ok = p.c.And(p.c.Sle(K64(-lim), n.num), p.c.Sle(n.num, K64(lim-1)))
	case sg && !n.sgn:
		ok = p.c.Ule(n.num, K(mask(width)>>1, 64))
	case !sg && n.sgn:
		ok = p.c.Sle(K(0, 64), n.num)
		if width < 64 {
			ok = p.c.And(ok, p.c.Ule(n.num, K(mask(width), 64)))
		}
	case !sg && !n.sgn && width < 64:
		ok = p.c.Ule(n.num, K(mask(width), 64))
	}
	if !p.branch(ok) {
		return p.jtypeErr(n, t)
	}
	storeVal(cell, p.c.Extract(n.num, 0, width))
	return nil
}

// ---------------------------------------------------------------- entry points

func (p *Path) jmarshal(fr *frame, x Iface) (Value, Value) {
	if x.t == nil {
		return "null", nil
	}
	n, err := p.jenc(fr, x.t, x.v, nil)
	if err != nil {
		return nil, err
	}
	return p.jdoc(n), nil
}

func (p *Path) junmarshal(fr *frame, n *jnode, x Iface, o jopts) Value {
	if x.t == nil {
		return p.mkErr("json: Unmarshal(nil)")
	}
	pt, ok := x.t.Underlying().(*types.Pointer)
	if !ok || isNilVal(x.v) {
		return p.mkErr("json: Unmarshal(non-pointer or nil " + x.t.String() + ")")
	}
	c, ok := x.v.(*Value)
	if !ok {
		panic(p.unsupported(fmt.Sprintf("JSON decoding into %T", x.v)))
	}
	if e := p.jdec(fr, n, pt.Elem(), c, o); e != nil {
		return e
	}
	return Iface{}
}

func bytesNil() Value { return []Value(nil) }

func init() {
	const fork = "github.com/go-jose/go-jose/v4/json"
	for _, pkg := range []string{"encoding/json", fork} {
		pkg := pkg
		opts := jopts{fold: pkg != fork, nodup: pkg == fork}
		marshal := func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			d, err := p.jmarshal(fr, a[0].(Iface))
			if err != nil {
				return Tuple{bytesNil(), err}
			}
			return Tuple{p.strBytes(d), Iface{}}
		}
		reg(pkg+".Marshal", marshal)
		reg(pkg+".MarshalIndent", marshal)
		reg(pkg+".Valid", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			_, ok := p.jparse(p.bytesStr(a[0]))
			return KB(ok)
		})
		reg(pkg+".Unmarshal", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			n, ok := p.jparse(p.bytesStr(a[0]))
			if !ok {
				return p.mkErr("json: invalid document")
			}
			return p.junmarshal(fr, n, a[1].(Iface), opts)
		})
		newStream := func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			c := new(Value)
			*c = zero(deref(fn.Signature.Results().At(0).Type()))
			p.jstate().streams[c] = &jstream{r: a[0].(Iface), opts: opts}
			return c
		}
		reg(pkg+".NewDecoder", newStream)
		reg(pkg+".NewEncoder", newStream)
		str := func(p *Path, v Value) *jstream {
			c, _ := v.(*Value)
			s := p.jstate().streams[c]
			if s == nil {
				panic(p.unsupported("JSON stream of unknown origin"))
			}
			return s
		}
		reg("(*"+pkg+".Decoder).UseNumber", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			str(p, a[0]).opts.useNum = p.w.e.world.typeOf(pkg, "Number")
			return nil
		})
		reg("(*"+pkg+".Decoder).SetNumberType", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			// UnmarshalFloat 0, UnmarshalJSONNumber 1, UnmarshalIntOrFloat 2
			switch t := a[1].(*Term); {
			case t.op == OpConst && t.k == 0:
				str(p, a[0]).opts.useNum = nil
			case t.op == OpConst && t.k == 1:
				str(p, a[0]).opts.useNum = p.w.e.world.typeOf(pkg, "Number")
			default:
				panic(p.unsupported("SetNumberType"))
			}
			return nil
		})
		reg("(*"+pkg+".Decoder).DisallowUnknownFields", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			str(p, a[0]).opts.unknown = true
			return nil
		})
		load := func(p *Path, fr *frame, s *jstream) {
			if s.read {
				return
			}
			s.read = true
			f := p.w.e.world.pkgs[zz+"models"].Func("readAll")
			r := p.call(fr, f, []Value{s.r}, nil).(Tuple)
			d := p.bytesStr(r[0])
			t, ok := d.(string)
			if !ok {
				x, isSym := d.(*SymStr)
				if !isSym || x.alts == nil {
					panic(p.unsupported("JSON decoding of symbolic text"))
				}
				t = p.pickAlt(x)
			}
			s.text = t
			s.err, _ = r[1].(Iface)
		}
		reg("(*"+pkg+".Decoder).Decode", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			s := str(p, a[0])
			load(p, fr, s)
			ioErr := func(name string) Value { return copyVal(*p.global(p.w.e.world.pkgs["io"].Var(name))) }
			if strings.Trim(s.text, " \t\r\n") == "" {
				if s.err.t != nil {
					return s.err
				}
				return ioErr("EOF")
			}
			n, rest, ok, inc := p.jfirst(s.text)
			if !ok {
				if inc {
					if s.err.t != nil {
						return s.err
					}
					return ioErr("ErrUnexpectedEOF")
				}
				return p.mkErr("json: invalid document")
			}
			s.text = rest
			return p.junmarshal(fr, n, a[1].(Iface), s.opts)
		})
		reg("(*"+pkg+".Decoder).More", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			s := str(p, a[0])
			load(p, fr, s)
			t := strings.TrimLeft(s.text, " \t\r\n")
			return KB(t != "" && t[0] != ']' && t[0] != '}')
		})
		for _, m := range []string{"SetIndent", "SetEscapeHTML"} {
			reg("(*"+pkg+".Encoder)."+m, noop)
		}
		reg("(*"+pkg+".Encoder).Encode", func(p *Path, fr *frame, fn *ssa.Function, a []Value) Value {
			s := str(p, a[0])
			d, err := p.jmarshal(fr, a[1].(Iface))
			if err != nil {
				return err
			}
			r, ok := p.invoke(fr, s.r, "Write", p.strBytes(p.strConcat(d, "\n")))
			if !ok {
				p.nilDeref()
			}
			return r.(Tuple)[1]
		})
	}
}
