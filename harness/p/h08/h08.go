// Package h08: the generated codecs of the protocol messages.
package h08

import "zntr.io/solid/zzverif/vs"

type msg interface {
	MarshalVT() ([]byte, error)
	MarshalToVT([]byte) (int, error)
	MarshalToSizedBufferVT([]byte) (int, error)
	UnmarshalVT([]byte) error
	SizeVT() int
}

type kind struct {
	name string
	tags []uint64
	mk   func() msg
	null func() msg
	set  func(m msg, i int, l string)
}

// long is the length of an overlong text of the path; small makes values small.
var long, small bool

func text(l string) string {
	switch {
	case small:
		return "x"
	case long:
		return vs.StrRange(l, 127, 127) + "!"
	}
	n := vs.Choose(l+" length", 3)
	return vs.StrRange(l, n, n)
}

var depth int

// sub is how many choices a nested message has: none but the empty one at depth 3.
func sub(n int) int {
	if depth > 2 || small {
		return 1
	}
	return n
}

func ref[T any](x T) *T { return &x }

func texts(l string) []string {
	r := []string{text(l)}
	if !small && vs.Choose(l+" more", 2) == 1 {
		r = append(r, vs.StrRange(l+" next", 1, 1))
	}
	return r
}

func pairs(l string) map[string]string {
	k := text(l + " key")
	r := map[string]string{k: text(l)}
	if !small && vs.Choose(l+" more", 2) == 1 {
		k2 := vs.StrRange(l+" next", 1, 1)
		vs.Assume(k2 != k)
		r[k2] = ""
	}
	return r
}

func list[T any](l string, f func(string) *T) []*T {
	r := []*T{f(l)}
	if !small && vs.Choose(l+" more", 2) == 1 {
		r = append(r, new(T))
	}
	return r
}

func varint(x uint64) (b []byte) {
	for ; x >= 0x80; x >>= 7 {
		b = append(b, byte(x)|0x80)
	}
	return append(b, byte(x))
}

// trip encodes m and decodes the result.
func trip(k kind, m msg) []byte {
	b, err := m.MarshalVT()
	vs.Assert(err == nil, "message not encoded")
	vs.Assert(m.SizeVT() == len(b), "the announced size differs from the encoded length")
	c := make([]byte, len(b)+2)
	n, err := m.MarshalToSizedBufferVT(c)
	vs.Assert(vs.And(err == nil, n == len(b)), "message not encoded at the end of a buffer")
	vs.Assert(vs.And(vs.Same(c[2:], b), c[0] == 0, c[1] == 0), "encoding at the end of a buffer differs")
	d := k.mk()
	vs.Assert(d.UnmarshalVT(b) == nil, "encoded message not decoded")
	vs.Assert(vs.Same(m, d), "message altered by encoding and decoding")
	return b
}

// Every field survives by itself, under its registered number.
//
//gosym:bounds each of 39 messages with one field set to any value (nested messages again with one or no field); texts of up to two bytes or of 128; one or two elements
//gosym:cover short,long
//gosym:weight 4
func CheckField() {
	k := kinds[vs.Choose("message", len(kinds))]
	long = vs.Choose("long", 2) == 1
	if len(k.tags) == 0 {
		vs.Stop()
	}
	i := vs.Choose("field", len(k.tags))
	m := k.mk()
	k.set(m, i, "v")
	b := trip(k, m)
	if len(b) > 0 {
		t := varint(k.tags[i])
		vs.Assert(len(b) > len(t) && vs.Same(b[:len(t)], t), "field encoded under another number or type")
	}
	if long {
		vs.Cover("long")
	} else {
		vs.Cover("short")
	}
}

// All fields together survive.
//
//gosym:bounds each of 39 messages with all fields set, one of them to any value with texts of up to two bytes
//gosym:cover all
//gosym:weight 3
func CheckAll() {
	k := kinds[vs.Choose("message", len(kinds))]
	if len(k.tags) == 0 {
		vs.Stop()
	}
	open := vs.Choose("open", len(k.tags))
	m := k.mk()
	for i := range k.tags {
		small = i != open
		k.set(m, i, "v")
	}
	vs.Cover("all")
	trip(k, m)
}

// An absent message has no encoding, an empty one an empty encoding.
//
//gosym:bounds each of 39 messages
//gosym:cover nil
func CheckNil() {
	k := kinds[vs.Choose("message", len(kinds))]
	b, err := k.null().MarshalVT()
	vs.Assert(vs.And(err == nil, len(b) == 0, k.null().SizeVT() == 0), "absent message encoded")
	b, err = k.mk().MarshalVT()
	vs.Assert(vs.And(err == nil, len(b) == 0, k.mk().SizeVT() == 0), "empty message has an encoding")
	vs.Assert(k.mk().UnmarshalVT(nil) == nil, "empty encoding refused")
	vs.Cover("nil")
}

func flag(l string) bool { return small || vs.Bool(l) }

func num(l string) uint64 {
	if small {
		return 300
	}
	return vs.Uint64(l)
}

func enum(l string) int32 {
	if small {
		return 2
	}
	return vs.Int32(l)
}

// total decodes arbitrary bytes; what is accepted has a stable encoding.
func total(k kind, b []byte) {
	m := k.mk()
	in := append([]byte{}, b...)
	err := m.UnmarshalVT(in)
	if err != nil {
		vs.Cover("refused")
		return
	}
	vs.Cover("accepted")
	one, err := m.MarshalVT()
	vs.Assert(vs.And(err == nil, len(one) == m.SizeVT()), "decoded message not encoded with its announced size")
	for i := range in {
		in[i] ^= 0x55
	}
	two, err := m.MarshalVT()
	vs.Assert(vs.And(err == nil, vs.Same(one, two)), "decoded message shares the input buffer")
	d := k.mk()
	vs.Assert(d.UnmarshalVT(one) == nil, "encoded message not decoded")
	vs.Assert(vs.Same(m, d), "message altered by encoding and decoding")
}

// Arbitrary bytes are a message or an error.
//
//gosym:bounds each of 39 messages, every input of up to 4 bytes (5 in the thorough check)
//gosym:cover accepted,refused
//gosym:weight 4
func CheckBytes() {
	k := kinds[vs.Choose("message", len(kinds))]
	n := 5
	if vs.Thorough() {
		n = 6
	}
	total(k, vs.BytesN("input", vs.Choose("length", n)))
}

// sizes are the ones at which the arithmetic of the decoders could go wrong.
var sizes = []string{"\xff\xff\xff\xff\x07", "\x80\x80\x80\x80\x08", "\xff\xff\xff\xff\x0f", "\x81\x80\x80\x80\x10",
	"\xff\xff\xff\xff\xff\xff\xff\xff\x7f", "\xf5\xff\xff\xff\xff\xff\xff\xff\x7f", "\x80\x80\x80\x80\x80\x80\x80\x80\x80\x01", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01",
	"\x80\x80\x80\x80\x80\x80\x80\x80\x80\x00", "\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x00", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f"}

// So are arbitrary contents of a field, cut anywhere, with a length of any size.
//
//gosym:bounds each of 39 messages and each of its fields, a content of 0 to 2 arbitrary bytes (4 in the thorough check) after the tag; 11 sizes around the limits of 31, 32, 63 and 64 bits (any of 9 bytes in the thorough check) followed by an arbitrary byte
//gosym:cover accepted,refused
//gosym:weight 6
func CheckContents() {
	k := kinds[vs.Choose("message", len(kinds))]
	if len(k.tags) == 0 {
		vs.Stop()
	}
	b := varint(k.tags[vs.Choose("field", len(k.tags))])
	n := 3
	if vs.Thorough() {
		n = 5
	}
	switch c := vs.Choose("length", n+2) - 2; {
	case c >= 0:
		b = append(b, vs.BytesN("content", c)...)
	case c == -1:
		b = append(b, sizes[vs.Choose("size", len(sizes))]...)
		b = append(b, vs.BytesN("rest", 1)...)
	case vs.Thorough():
		x := vs.BytesN("size", 9)
		for i := range x[:8] {
			vs.Assume(x[i] >= 0x80)
		}
		b = append(append(b, x...), vs.BytesN("rest", 1)...)
	default:
		vs.Stop()
	}
	total(k, b)
}

// Fields that a message does not know are kept, whatever their type.
//
//gosym:bounds each of 39 messages, an unknown field of each wire type followed by up to 4 arbitrary bytes (6 in the thorough check)
//gosym:cover kept,refused
//gosym:weight 3
func CheckUnknown() {
	k := kinds[vs.Choose("message", len(kinds))]
	tag := uint64(999 << 3)
	b := varint(tag | uint64(vs.Choose("type", 8)))
	n := 5
	if vs.Thorough() {
		n = 7
	}
	b = append(b, vs.BytesN("content", vs.Choose("length", n))...)
	m := k.mk()
	if m.UnmarshalVT(b) != nil {
		vs.Cover("refused")
		return
	}
	c, err := m.MarshalVT()
	vs.Assert(err == nil && len(c) > 1, "an unknown field is lost")
	vs.Cover("kept")
}
