// Package h01: PKCE accepts exactly the verifier that produced the challenge.
package h01

import (
	"crypto/sha256"
	"encoding/base64"

	"zntr.io/solid/sdk/pkce"
	"zntr.io/solid/zzverif/vs"
)

func challengeOf(v string) string {
	h := sha256.Sum256([]byte(v))
	return base64.RawURLEncoding.EncodeToString(h[:])
}

// A generated pair has the shape of RFC 7636 and validates with itself.
//
//gosym:bounds every 96-byte output of the random source
//gosym:cover pair
func CheckGenerated() {
	v, c, err := pkce.CodeVerifier()
	if err != nil {
		vs.Assert(v == "" && c == "", "failed generation returns values")
		return
	}
	vs.Cover("pair")
	vs.Assert(len(v) >= 43 && len(v) <= 128, "verifier length outside 43..128")
	ok := true
	for i := 0; i < len(v); i++ {
		b := v[i]
		ok = vs.And(ok, vs.Or(b >= 'a' && b <= 'z', b >= 'A' && b <= 'Z', b >= '0' && b <= '9', b == '-', b == '_', b == '.', b == '~'))
	}
	vs.Assert(ok, "verifier outside the unreserved alphabet")
	vs.Assert(c == challengeOf(v), "challenge is not the S256 digest of the verifier")
	good, err := pkce.Validate(c, v)
	vs.Assert(good && err == nil, "generated pair does not validate")
}

// The challenge of one verifier accepts that verifier and no other one.
//
//gosym:bounds verifiers of 43 and 44 bytes over the unreserved alphabet, every challenge of 43 bytes
//gosym:cover genuine,other,arbitrary
func CheckValidate() {
	const cs = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"
	v := vs.StrIn("verifier", 43, 44, cs)
	switch vs.Choose("kind", 3) {
	case 0:
		ok, err := pkce.Validate(challengeOf(v), v)
		vs.Cover("genuine")
		vs.Assert(ok && err == nil, "genuine verifier refused")
	case 1:
		w := vs.StrIn("other", 43, 44, cs)
		ok, _ := pkce.Validate(challengeOf(w), v)
		vs.Cover("other")
		vs.Assert(ok == (v == w), "acceptance differs from equality of verifiers")
	default:
		c := vs.StrIn("challenge", 0, 44, cs)
		ok, _ := pkce.Validate(c, v)
		vs.Cover("arbitrary")
		vs.Assert(vs.Implies(ok, c == challengeOf(v)), "accepted challenge is not the digest of the verifier")
	}
}

// Empty and arbitrary byte strings never validate by accident.
//
//gosym:bounds challenge of at most 6 bytes, verifier of at most 6 bytes, all byte values
//gosym:cover empty,short
func CheckShort() {
	c, v := vs.Str("challenge", 6), vs.Str("verifier", 6)
	ok, err := pkce.Validate(c, v)
	if c == "" || v == "" {
		vs.Cover("empty")
		vs.Assert(!ok && err != nil, "blank challenge or verifier accepted")
		return
	}
	vs.Cover("short")
	vs.Assert(!ok, "a challenge shorter than a digest was accepted")
}

// A verifier of any length and content validates against no challenge but its own.
//
//gosym:bounds verifiers of 43, 44, 46, 64, 127 to 130 and 256 bytes, in quick 43 to 130, arbitrary bytes, against the challenge of any other one whose length differs by at most two, and against the challenge of the verifier with any two bytes added in front or behind
//gosym:cover same,other,added
func CheckOther() {
	lens := []int{43, 44, 46, 64, 127, 128, 129, 130}
	if vs.Thorough() {
		lens = append(lens, 256)
	}
	n := lens[vs.Choose("long", len(lens))]
	v := vs.StrRange("verifier", n, n)
	var w string
	switch vs.Choose("kind", 3) {
	case 0:
		m := n - 2 + vs.Choose("other long", 5)
		w = vs.StrRange("other", m, m)
	case 1:
		w = v + vs.StrRange("behind", 1, 2)
		vs.Cover("added")
	default:
		w = vs.StrRange("before", 1, 2) + v
		vs.Cover("added")
	}
	good, _ := pkce.Validate(challengeOf(w), v)
	back, _ := pkce.Validate(challengeOf(v), w)
	if v == w {
		vs.Cover("same")
		return
	}
	vs.Cover("other")
	vs.Assert(!good && !back, "a verifier validates against the challenge of another one")
}
