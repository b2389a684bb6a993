// Package h04: pairwise subjects are stable per sector and differ across sectors.
package h04

import (
	"strings"

	"zntr.io/solid/sdk/pairwise"
	"zntr.io/solid/zzverif/vs"
)

// The encoding is a function of salt, sector and subject and rejects bad input.
//
//gosym:bounds salts of 14 to 18 bytes, sectors and subjects of 0 to 4 ASCII bytes
//gosym:cover ok,shortsalt,blank
func CheckFunction() {
	salt := []byte(vs.StrRange("salt", 14, 18))
	sector := vs.StrIn("sector", 0, 4, txt)
	sub := vs.StrIn("subject", 0, 4, " \tabAB:@/")
	a, err1 := pairwise.Hash(salt).Encode(sector, sub)
	b, err2 := pairwise.Hash(append([]byte(nil), salt...)).Encode(sector, sub)
	vs.Assert((err1 == nil) == (err2 == nil) && a == b, "same input, different subject")
	blank := true
	for i := 0; i < len(sub); i++ {
		blank = vs.And(blank, vs.Or(sub[i] == ' ', sub[i] == '\t'))
	}
	if len(salt) < 16 {
		vs.Cover("shortsalt")
		vs.Assert(err1 != nil && a == "", "short salt accepted")
	} else if blank {
		vs.Cover("blank")
		vs.Assert(err1 != nil && a == "", "blank subject accepted")
	} else {
		vs.Cover("ok")
		vs.Assert(err1 == nil && len(a) == 43, "subject not a 256-bit digest")
	}
}

const txt = "abcABC:/.@-"

// Different users of one sector, and one user in two sectors of equal length, get different subjects.
//
//gosym:bounds 16-byte salt, sectors of 3 bytes, subjects of 3 bytes
//gosym:cover user,sector,salt
func CheckDistinct() {
	salt := []byte(vs.StrRange("salt", 16, 16))
	enc := pairwise.Hash(salt)
	sec, sub := vs.StrIn("sector", 3, 3, txt), vs.StrIn("subject", 3, 3, txt)
	a, err := enc.Encode(sec, sub)
	vs.Assume(err == nil)
	switch vs.Choose("what", 3) {
	case 0:
		o := vs.StrIn("other", 1, 4, txt)
		b, err := enc.Encode(sec, o)
		vs.Cover("user")
		vs.Assert(err == nil && (a == b) == (sub == o), "two users of a sector share a subject")
	case 1:
		o := vs.StrIn("othersector", 3, 3, txt)
		b, err := enc.Encode(o, sub)
		vs.Cover("sector")
		vs.Assert(err == nil && (a == b) == (sec == o), "a user has one subject in two sectors")
	default:
		o := []byte(vs.StrRange("othersalt", 16, 16))
		b, err := pairwise.Hash(o).Encode(sec, sub)
		vs.Cover("salt")
		vs.Assert(err == nil && (a == b) == (string(o) == string(salt)), "the salt does not matter")
	}
}

// Any two distinct (sector, subject) pairs get different subjects, whatever their lengths.
//
//gosym:bounds 16-byte salt, sectors of 0 to 3 bytes, subjects of 1 to 3 bytes
//gosym:cover pair
func CheckPairs() {
	enc := pairwise.Hash([]byte("0123456789abcdef"))
	s1, u1 := vs.StrIn("sector1", 0, 3, txt), vs.StrIn("subject1", 1, 3, txt)
	s2, u2 := vs.StrIn("sector2", 0, 3, txt), vs.StrIn("subject2", 1, 3, txt)
	a, err1 := enc.Encode(s1, u1)
	b, err2 := enc.Encode(s2, u2)
	vs.Assume(err1 == nil && err2 == nil)
	vs.Cover("pair")
	same := vs.And(s1 == s2, u1 == u2)
	if s1+u1 == s2+u2 {
		vs.Assert(vs.Implies(a == b, same), "sector and subject run together: two pairs with one concatenation share a subject")
	} else {
		vs.Assert(vs.Implies(a == b, same), "two sector and subject pairs share a subject")
	}
}

// Long sectors, subjects and salts matter to their last byte.
//
//gosym:bounds salt, sector or subject of an arbitrary character before or behind 15, 31, 64 or 255 common ones (salts up to 64 bytes in all)
//gosym:cover salt,sector,subject
func CheckLong() {
	pad := strings.Repeat("a", []int{15, 31, 64, 255}[vs.Choose("pad", 4)])
	x, y := vs.StrIn("x", 1, 1, txt), vs.StrIn("y", 1, 1, txt)
	front := vs.Choose("front", 2) == 0
	wrap := func(s string) string {
		if front {
			return pad + s
		}
		return s + pad
	}
	salt := func(s string) []byte { return []byte("0123456789abcdef") }
	sec := func(s string) string { return "sector" }
	sub := func(s string) string { return "subject" }
	switch vs.Choose("what", 3) {
	case 0:
		vs.Assume(len(pad) < 64)
		salt = func(s string) []byte { return []byte(wrap(s)) }
		vs.Cover("salt")
	case 1:
		sec = wrap
		vs.Cover("sector")
	default:
		sub = wrap
		vs.Cover("subject")
	}
	a, err1 := pairwise.Hash(salt(x)).Encode(sec(x), sub(x))
	b, err2 := pairwise.Hash(salt(y)).Encode(sec(y), sub(y))
	vs.Assert(err1 == nil && err2 == nil, "proper input refused")
	vs.Assert((a == b) == (x == y), "the end of a long input does not matter")
}
