// Package g07: verifiable identifiers round-trip and cannot be forged.
package g07

import (
	"bytes"
	"context"
	"crypto/rand"
	"errors"
	"math/big"
	"strings"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/zzverif/vs"
)

// prefixes are the ones a caller may ask for; the last two must be refused.
func prefix() (string, bool) {
	switch vs.Choose("prefix", 6) {
	case 0:
		return "", true
	case 1:
		return "sldat", true
	case 2:
		n := 1 + vs.Choose("chars long", 3)
		return vs.StrIn("chars", n, n, "abz09-"), true
	case 3:
		return " At\t", true
	case 4:
		return "a_b", false
	}
	return "é", false
}

func opts(p string) []verifiable.GenerateOption {
	if p == "" {
		return nil
	}
	return []verifiable.GenerateOption{verifiable.WithTokenPrefix(p)}
}

// array returns 16 bytes.
func array(b []byte) (out [16]byte) {
	copy(out[:], b)
	return out
}

// An identifier issued under a secret verifies under it and yields its payload.
//
//gosym:bounds every payload of 16 bytes (one with few leading zero digits); secrets of one to three bytes; no prefix or one of up to five bytes; every nonce whose first byte is not zero
//gosym:cover issued,refused,short
func CheckRoundTrip() {
	uuid := vs.BytesN("payload", 16)
	nonce := vs.BytesN("nonce", 12)
	vs.Assume(vs.And(nonce[0] != 0, vs.Or(uuid[0] != 0, uuid[1] != 0)))
	secret := vs.BytesN("secret", 1+vs.Choose("secret long", 3))
	p, valid := prefix()
	rand.Reader = bytes.NewReader(nonce)
	out, err := verifiable.UUIDGenerator(verifiable.StaticUUIDSource(array(uuid)), secret).Generate(opts(p)...)
	if !valid {
		vs.Cover("refused")
		vs.Assert(err != nil && out == "", "an identifier was issued under a malformed prefix")
		return
	}
	vs.Cover("issued")
	vs.Assert(err == nil && out != "", "no identifier issued")
	if p != "" {
		vs.Assert(strings.HasPrefix(out, strings.ToLower(strings.TrimSpace(p))+"_"), "the identifier does not carry its prefix")
	}
	v := verifiable.UUIDVerifier(secret)
	vs.Assert(v.Verify(out) == nil, "an issued identifier does not verify")
	got, err := v.Extract(out)
	vs.Assert(err == nil && vs.Same(got, uuid), "an issued identifier does not yield its payload")
	if uuid[0] == 0 {
		vs.Cover("short")
	}
}

// issue makes an identifier from a payload and a nonce.
func issue(secret []byte, p string, uuid, nonce []byte) string {
	rand.Reader = bytes.NewReader(nonce)
	out, err := verifiable.UUIDGenerator(verifiable.StaticUUIDSource(array(uuid)), secret).Generate(opts(p)...)
	vs.Assert(err == nil, "no identifier issued")
	return out
}

func decode(s string, n int) []byte {
	var i big.Int
	_, ok := i.SetString(s, 62)
	vs.Assert(ok, "an identifier is not made of digits")
	return i.FillBytes(make([]byte, n))
}

func encode(b []byte, n int) string {
	var i big.Int
	i.SetBytes(b)
	s := i.Text(62)
	return strings.Repeat("0", max(n-len(s), 0)) + s
}

// mac is the authentication code of an identifier.
func mac(s string) []byte {
	return decode(s[strings.LastIndex(s, "_")+1:], 44)[12:]
}

func high(label string, n int) []byte {
	b := vs.BytesN(label, n)
	vs.Assume(b[0] >= 0x80)
	return b
}

// short nonces make codes of 59 digits; others make 60.
func short(label string) []byte {
	b := high(label, 12)
	if !vs.Thorough() {
		vs.Assume(b[0] <= 0x9c)
	}
	return b
}

// Nothing made from an issued identifier carries another payload, prefix or
// nonce, and nothing issued under another secret verifies.
//
//gosym:bounds two identifiers issued under one secret and one under another, every candidate which reuses an authentication code of one of them with any payload, nonce and prefix of up to two bytes; payloads and nonces whose first bit is set, in quick those whose codes have 59 digits
//gosym:cover accepted,refused,other
func CheckForge() {
	secret := vs.BytesN("secret", 2)
	long := 2
	if vs.Thorough() {
		long = 1 + vs.Choose("foreign long", 3)
	}
	foreign := vs.BytesN("foreign", long)
	vs.Assume(!vs.Same(secret, foreign))
	pa, pb := "", ""
	if vs.Choose("prefixed", 2) == 1 {
		pa, pb = vs.StrIn("pa", 2, 2, "ab9-"), vs.StrIn("pb", 1, 1, "ab9-")
	}
	ua, na := high("uuid a", 16), short("nonce a")
	ub, nb := high("uuid b", 16), short("nonce b")
	uc, nc := high("uuid c", 16), short("nonce c")
	a, b, c := issue(secret, pa, ua, na), issue(secret, pb, ub, nb), issue(foreign, pa, uc, nc)
	code := mac(a)
	which := vs.Choose("code of", 3)
	switch which {
	case 1:
		code = mac(b)
	case 2:
		code = mac(c)
	}
	px := ""
	if vs.Choose("candidate prefixed", 2) == 1 {
		n := 1 + vs.Choose("px long", 2)
		px = vs.StrIn("px", n, n, "abAB9-")
	}
	ux, nx := high("uuid x", 16), short("nonce x")
	sig := encode(append(append([]byte{}, nx...), code...), 59)
	x := encode(ux, 22) + "_" + sig
	if px != "" {
		x = px + "_" + x
	}
	v := verifiable.UUIDVerifier(secret)
	got, err := v.Extract(x)
	vs.Assert((v.Verify(x) == nil) == (err == nil), "verification and extraction disagree")
	if err != nil {
		vs.Cover("refused")
		if which == 2 {
			vs.Cover("other")
		}
		vs.Assert(len(got) == 0, "a payload was returned with an error")
		return
	}
	vs.Cover("accepted")
	vs.Assert(vs.Same(got, ux), "the extracted payload is not the carried one")
	same := func(p string, u, n []byte) bool {
		return vs.And(px == p, vs.Same(u, ux), vs.Same(n, nx))
	}
	vs.Assert(vs.Or(same(pa, ua, na), same(pb, ub, nb)), "an identifier that was not issued under the secret verifies")
}

// An issued identifier with any other authentication code is refused.
//
//gosym:bounds every payload and nonce whose first bit is set (in quick those whose codes have 59 digits); every 32 byte code
//gosym:cover accepted,refused
func CheckTamper() {
	secret := vs.BytesN("secret", 2)
	p := ""
	if vs.Choose("prefixed", 2) == 1 {
		p = vs.StrIn("prefix", 2, 2, "ab9-")
	}
	u, n := high("uuid", 16), short("nonce")
	a := issue(secret, p, u, n)
	code := vs.BytesN("code", 32)
	head := a[:strings.LastIndex(a, "_")+1]
	got, err := verifiable.UUIDVerifier(secret).Extract(head + encode(append(append([]byte{}, n...), code...), 59))
	vs.Assert((err == nil) == vs.Same(code, mac(a)), "the authentication code is not compared")
	if err != nil {
		vs.Cover("refused")
		return
	}
	vs.Cover("accepted")
	vs.Assert(vs.Same(got, u), "an issued identifier does not yield its payload")
}

// An issued identifier with any other payload is refused, however long its
// prefix is, and so is one with another prefix of the same length.
//
//gosym:bounds prefixes of 0 to 40 characters; every payload and nonce whose first bit is set (in quick nonces whose codes have 59 digits)
//gosym:cover accepted,payload,prefix
func CheckSwap() {
	secret := vs.BytesN("secret", 2)
	lens := []int{0, 1, 2, 3, 4, 5, 8, 15, 16, 19, 24, 32, 40}
	k := lens[vs.Choose("prefix long", len(lens))]
	p := ""
	if k > 0 {
		p = vs.StrIn("prefix", k, k, "ab9-")
	}
	u, n := high("uuid", 16), short("nonce")
	a := issue(secret, p, u, n)
	code := a[strings.LastIndex(a, "_"):]
	q, ux := p, u
	if k > 0 && vs.Choose("what", 2) == 1 {
		q = vs.StrIn("other prefix", k, k, "ab9-")
	} else {
		ux = high("other uuid", 16)
	}
	x := encode(ux, 22) + code
	if k > 0 {
		x = q + "_" + x
	}
	got, err := verifiable.UUIDVerifier(secret).Extract(x)
	same := vs.And(q == p, vs.Same(u, ux))
	vs.Assert((err == nil) == same, "an identifier verifies with another payload or prefix")
	if err == nil {
		vs.Cover("accepted")
		vs.Assert(vs.Same(got, u), "an issued identifier does not yield its payload")
		return
	}
	if q == p {
		vs.Cover("payload")
	} else {
		vs.Cover("prefix")
	}
}

const (
	digits = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	wide   = digits + "_-+ ~"
)

// No text of any shape makes verification crash, and text nobody issued is an
// error which returns no payload.
//
//gosym:bounds texts of up to eight arbitrary bytes; texts of the shape of an identifier with parts of 21 to 23 and 58 to 61 characters from the digits and five other characters, with up to two separators more
//gosym:cover small,shaped
func CheckTotal() {
	v := verifiable.UUIDVerifier([]byte(vs.Str("secret", 2)))
	var s string
	if vs.Choose("shape", 2) == 0 {
		s = vs.Str("text", 8)
		vs.Cover("small")
	} else {
		vs.Cover("shaped")
		n := vs.IntRange("payload digits", 21, 23)
		m := vs.IntRange("code digits", 58, 61)
		s = vs.StrIn("payload", n, n, digits) + "_" + vs.StrIn("code", m, m, digits)
		switch vs.Choose("more", 5) {
		case 0:
			s = vs.Str("prefix", 2) + "_" + s
		case 1:
			s = s + "_"
		case 2:
			s = "_" + s
		case 3:
			s = vs.StrIn("payload", n, n, wide) + "_" + vs.StrIn("code", m, m, digits)
		}
	}
	got, err := v.Extract(s)
	vs.Assert((err == nil) == (v.Verify(s) == nil), "verification and extraction disagree")
	vs.Assert(vs.Or(err != nil, len(got) == 16), "an accepted text has no payload")
	vs.Assert(vs.Or(err == nil, len(got) == 0), "a payload was returned with an error")
}

// The token generator marks values with the kind of token, and errors of the
// source or of the random reader are reported.
//
//gosym:bounds every token type; a failing source, a short random reader
//gosym:cover kind,source,random,nil
func CheckToken() {
	secret := []byte("secret")
	uuid, nonce := high("uuid", 16), high("nonce", 12)
	switch vs.Choose("case", 4) {
	case 0:
		vs.Cover("kind")
		rand.Reader = bytes.NewReader(nonce)
		g := verifiable.Token(verifiable.StaticUUIDSource(array(uuid)), secret)
		kind := vs.Int32("kind")
		out, err := g.Generate(context.Background(), &tokenv1.Token{TokenType: tokenv1.TokenType(kind)})
		vs.Assert(err == nil, "no token value")
		p := ""
		switch tokenv1.TokenType(kind) {
		case tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN:
			p = "sldat_"
		case tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN:
			p = "sldrt_"
		case tokenv1.TokenType_TOKEN_TYPE_PHANTOM_TOKEN:
			p = "sldpt_"
		}
		vs.Assert(strings.HasPrefix(out, p) && strings.Count(out, "_") == 1+len(p)/6, "the token value is not marked with its kind")
		got, err := verifiable.UUIDVerifier(secret).Extract(out)
		vs.Assert(err == nil && vs.Same(got, uuid), "a token value does not verify")
	case 1:
		vs.Cover("source")
		out, err := verifiable.UUIDGenerator(func() ([16]byte, error) { return [16]byte{}, errors.New("source") }, secret).Generate()
		vs.Assert(err != nil && out == "", "an identifier without a payload")
	case 2:
		vs.Cover("random")
		rand.Reader = bytes.NewReader(nonce[:vs.IntRange("read", 0, 11)])
		out, err := verifiable.UUIDGenerator(verifiable.StaticUUIDSource(array(uuid)), secret).Generate()
		vs.Assert(err != nil && out == "", "an identifier without a full nonce")
	default:
		vs.Cover("nil")
		out, err := verifiable.Token(verifiable.StaticUUIDSource(array(uuid)), secret).Generate(context.Background(), nil)
		vs.Assert(err != nil && out == "", "a value for no token")
	}
}
