// Package h03: constant-time comparison is equality and string lists follow their contract.
package h03

import (
	"strings"

	"zntr.io/solid/sdk/types"
	"zntr.io/solid/zzverif/vs"
)

func same(a, b string) bool { return strings.EqualFold(a, b) }

func has(l []string, x string) bool {
	r := false
	for _, v := range l {
		r = vs.Or(r, same(v, x))
	}
	return r
}

// Comparison is equality for all strings and slices.
//
//gosym:bounds two values of 0 to 6 bytes, all byte values
//gosym:cover eq,ne
func CheckCompare() {
	a, b := vs.Str("a", 6), vs.Str("b", 6)
	got := types.SecureCompareString(a, b)
	vs.Assert(got == (a == b), "SecureCompareString is not equality")
	got2 := types.SecureCompare([]byte(a), []byte(b))
	vs.Assert(got2 == (a == b), "SecureCompare is not equality")
	if got {
		vs.Cover("eq")
	} else {
		vs.Cover("ne")
	}
	vs.Assert(types.SecureCompare(nil, []byte(b)) == (b == ""), "SecureCompare with nil")
}

// Long values that differ in one place only are told apart.
//
//gosym:bounds two values of 64 bytes, all byte values; 8 lengths up to 65537 with equal content
//gosym:cover long
func CheckCompareLong() {
	a, b := vs.StrRange("a", 64, 64), vs.StrRange("b", 64, 64)
	vs.Cover("long")
	vs.Assert(types.SecureCompareString(a, b) == (a == b), "SecureCompareString is not equality on 64 bytes")
	l := []int{0, 1, 255, 256, 257, 512, 65536, 65537}
	x, y := l[vs.Choose("x", len(l))], l[vs.Choose("y", len(l))]
	vs.Assert(types.SecureCompareString(string(make([]byte, x)), string(make([]byte, y))) == (x == y), "SecureCompareString ignores the length")
	vs.Assert(types.SecureCompare(make([]byte, x), make([]byte, y)) == (x == y), "SecureCompare ignores the length")
}

const cs = "abAB_k"

func list() types.StringArray {
	var s types.StringArray
	n := vs.Choose("n", 4)
	for i := 0; i < n; i++ {
		s = append(s, vs.StrIn("e", 0, 2, cs))
	}
	return s
}

func snap(s types.StringArray) []string {
	r := make([]string, len(s))
	copy(r, s)
	return r
}

// Queries agree with membership of the elements.
//
//gosym:bounds lists of 0 to 3 values and queries of 2 values, each of 0 to 2 characters from abAB_k
//gosym:cover yes,no
func CheckQueries() {
	s := list()
	x, y := vs.StrIn("x", 0, 2, cs), vs.StrIn("y", 0, 2, cs)
	hx, hy := has(s, x), has(s, y)
	got := s.Contains(x)
	vs.Assert(got == hx, "Contains differs from membership")
	if got {
		vs.Cover("yes")
	} else {
		vs.Cover("no")
	}
	vs.Assert(s.HasOneOf(x, y) == vs.Or(hx, hy), "HasOneOf differs from membership of one")
	vs.Assert(s.HasAll(x, y) == vs.And(hx, hy), "HasAll differs from membership of all")
	vs.Assert(!s.HasOneOf(), "HasOneOf of nothing")
}

// Adding makes a value contained exactly once and keeps the others.
//
//gosym:bounds lists of 0 to 3 values of 0 to 2 characters from abAB_k
//gosym:cover added,kept
func CheckAdd() {
	s := list()
	before := snap(s)
	x := vs.StrIn("x", 0, 2, cs)
	had := has(before, x)
	s.AddIfNotContains(x)
	vs.Assert(has(s, x), "added value is not contained")
	for i, v := range before {
		vs.Assert(i < len(s) && s[i] == v, "adding changed another value")
	}
	if had {
		vs.Cover("kept")
		vs.Assert(len(s) == len(before), "contained value added again")
	} else {
		vs.Cover("added")
		vs.Assert(len(s) == len(before)+1 && s[len(s)-1] == x, "missing value not appended as given")
	}
}

// Removing takes out the value and nothing else.
//
//gosym:bounds lists of 0 to 3 values of 0 to 2 characters from abAB_k
//gosym:cover removed,absent
func CheckRemove() {
	s := list()
	before := snap(s)
	x := vs.StrIn("x", 0, 2, cs)
	var want []string
	gone := false
	for _, v := range before {
		if same(v, x) {
			gone = true
			continue
		}
		want = append(want, v)
	}
	s.Remove(x)
	if gone {
		vs.Cover("removed")
	} else {
		vs.Cover("absent")
	}
	vs.Assert(len(s) == len(want), "wrong number of values after removal")
	for i, v := range want {
		vs.Assert(s[i] == v, "removal changed another value")
	}
}

// Nil detection covers untyped nil and nil pointers only.
//
//gosym:cover nil
func CheckIsNil() {
	var p *int
	var e error
	x := 3
	vs.Cover("nil")
	vs.Assert(types.IsNil(nil) && types.IsNil(p) && types.IsNil(e), "nil not detected")
	vs.Assert(!types.IsNil(&x) && !types.IsNil(x) && !types.IsNil(""), "value taken for nil")
	s := vs.Str("s", 3)
	u := uint64(vs.Int64("u"))
	b := vs.Bool("b")
	vs.Assert(*types.StringRef(s) == s && *types.UInt64Ref(u) == u && *types.BoolRef(b) == b, "pointer helper changes the value")
}
