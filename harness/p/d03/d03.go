// Package d03: a used proof identifier is remembered for as long as its proof is acceptable.
package d03

import (
	"strings"

	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// A proof is acceptable while its issue time is within the threshold of the present, on either side: an
// identifier registered at the earliest such instant has to be remembered until the latest.
func history(n int) {
	s := inmemory.DPoPProofs()
	ctx := stub.Ctx()
	now := stub.Now("t")
	type reg struct {
		id  string
		iat int64
	}
	w := int64(dpop.ExpirationTreshold.Seconds())
	var rs []reg
	for i := 0; i < n; i++ {
		id := vs.Str("id", 2)
		r := reg{id, now + vs.Int64Range("iat", 0, 2*w) - w}
		vs.Assert(s.Register(ctx, id) == nil, "register failed")
		rs = append(rs, r)
		now += vs.Int64Range("dt", 0, 120)
		vs.SetNow(now)
	}
	q := vs.Str("query", 2)
	used, known := false, false
	for _, r := range rs {
		hit := r.id == q
		known = vs.Or(known, hit)
		used = vs.Or(used, vs.And(hit, now <= r.iat+w))
	}
	ok, err := s.Exists(ctx, q)
	vs.Assert(err == nil, "lookup failed")
	vs.Assert(vs.Implies(used, ok), "used identifier forgotten while its proof is acceptable")
	vs.Assert(vs.Implies(!known, !ok), "identifier never registered reported as used")
	if used {
		vs.Cover("used")
	} else {
		vs.Cover("unused")
	}
}

// Registrations and a lookup at arbitrary times.
//
//gosym:bounds 2 registrations and 1 lookup, identifiers of up to 2 arbitrary bytes, 0 to 120 seconds between operations, issue times anywhere in the acceptance window
//gosym:cover used,unused
func CheckRemember() { history(2) }

// More registrations.
//
//gosym:tier thorough
//gosym:bounds as above with 4 registrations
//gosym:cover used,unused
func CheckRememberMany() { history(4) }

// Deleting an identifier forgets that one only.
//
//gosym:bounds 2 registrations and 1 deletion of identifiers of up to 2 arbitrary bytes
//gosym:cover deleted
func CheckDelete() {
	s := inmemory.DPoPProofs()
	ctx := stub.Ctx()
	stub.Now("t")
	a, b, d := vs.Str("a", 2), vs.Str("b", 2), vs.Str("d", 2)
	s.Register(ctx, a)
	s.Register(ctx, b)
	vs.Assert(s.Delete(ctx, d) == nil, "delete failed")
	x, _ := s.Exists(ctx, a)
	y, _ := s.Exists(ctx, b)
	vs.Assert(x == (a != d), "deletion touched another identifier or none")
	vs.Assert(y == (b != d), "deletion touched another identifier or none")
	vs.Cover("deleted")
}

// Long identifiers that differ in one place only are kept apart.
//
//gosym:bounds two identifiers of an arbitrary byte before or behind 15, 16, 31, 63, 64, 300 or 1100 common bytes
//gosym:cover same,apart
func CheckLong() {
	s := inmemory.DPoPProofs()
	ctx := stub.Ctx()
	stub.Now("t")
	pad := strings.Repeat("a", []int{15, 16, 31, 63, 64, 300, 1100}[vs.Choose("pad", 7)])
	a, b := vs.StrRange("a", 1, 1), vs.StrRange("b", 1, 1)
	same := a == b
	if vs.Choose("front", 2) == 0 {
		a, b = pad+a, pad+b
	} else {
		a, b = a+pad, b+pad
	}
	vs.Assert(s.Register(ctx, a) == nil, "register failed")
	ok, err := s.Exists(ctx, b)
	vs.Assert(err == nil && ok == same, "long identifiers taken for one, or one for two")
	if same {
		vs.Cover("same")
	} else {
		vs.Cover("apart")
	}
}

// Many identifiers are remembered at the same time.
//
//gosym:bounds 1500 distinct identifiers registered at one arbitrary instant, all looked up up to 15 seconds later
//gosym:cover all
func CheckMany() {
	s := inmemory.DPoPProofs()
	ctx := stub.Ctx()
	now := stub.Now("t")
	id := func(i int) string {
		return "p" + string(rune('0'+i/100)) + string(rune('0'+i/10%10)) + string(rune('0'+i%10))
	}
	for i := 0; i < 1500; i++ {
		vs.Assert(s.Register(ctx, id(i)) == nil, "register failed")
	}
	vs.SetNow(now + vs.Int64Range("dt", 0, 15))
	for i := 0; i < 1500; i++ {
		ok, err := s.Exists(ctx, id(i))
		vs.Assert(err == nil && ok, "one of many used identifiers is forgotten")
	}
	vs.Cover("all")
}
