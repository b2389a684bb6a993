// Package g03: token generators serialise only complete tokens and exactly their content.
package g03

import (
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

const day = 24 * 3600

// Printable states whether every byte is printable ASCII, and there is one.
func printable(s string) bool {
	r := s != ""
	for i := 0; i < len(s); i++ {
		r = vs.And(r, s[i] >= 0x20, s[i] <= 0x7e)
	}
	return r
}

func ascii(s string) bool {
	r := true
	for i := 0; i < len(s); i++ {
		r = vs.And(r, s[i] < 0x80)
	}
	return r
}

type claims struct {
	Iss   string `json:"iss"`
	Sub   string `json:"sub"`
	Aud   string `json:"aud"`
	Exp   uint64 `json:"exp"`
	Nbf   uint64 `json:"nbf"`
	Iat   uint64 `json:"iat"`
	JTI   string `json:"jti"`
	CID   string `json:"client_id"`
	Scope string `json:"scope"`
	Cnf   *struct {
		Jkt string `json:"jkt"`
	} `json:"cnf"`
}

var names = []string{"iss", "sub", "aud", "exp", "nbf", "iat", "jti", "client_id", "scope", "cnf"}

func run(kind tokenv1.TokenType, gen func(token.Serializer) token.Generator, life uint64) {
	now := stub.Now("now")
	s := &stub.Serializer{Out: vs.Str("out", 2), Fail: vs.Bool("fail")}
	g := gen(s)
	t := &tokenv1.Token{
		TokenType: kind, TokenId: vs.StrIn("jti", 0, 2, jt.Printable), Status: stub.Active, Confirmation: stub.Confirm("cnf"),
		Metadata: &tokenv1.TokenMeta{
			Issuer: vs.Pick("issuer", "https://as.example", "https://as.example/2", "", "as", "https://", "http://as.example:1/x?y#z"), Subject: vs.Str("sub", 2), ClientId: vs.Str("cid", 2), Scope: vs.Str("scope", 2), Audience: vs.Str("aud", 2),
			IssuedAt: uint64(vs.Int64Range("iat", 0, 1<<32)), NotBefore: uint64(vs.Int64Range("nbf", 0, 1<<32)), ExpiresAt: uint64(vs.Int64Range("exp", 0, 1<<32)),
		},
	}
	vs.Fill("token", t, 4, "Confirmation")
	vs.Fill("meta", t.Metadata, 4)
	if t.Confirmation != nil {
		vs.Assume(ascii(t.Confirmation.Jkt))
	}
	in := t
	switch vs.Choose("shape", 3) {
	case 1:
		in = nil
	case 2:
		t.Metadata = nil
	}
	m := t.Metadata
	before := vs.Snapshot(t)
	v, err := g.Generate(stub.Ctx(), in)
	vs.Assert(vs.Same(t, before), "generating a value changed the token")
	if in == nil || m == nil {
		vs.Assert(err != nil && v == "", "value for a missing token")
		vs.Assert(s.Calls == 0, "claims of a missing token serialised")
		vs.Cover("missing")
		return
	}
	url := vs.Or(m.Issuer == "https://as.example", m.Issuer == "https://as.example/2", m.Issuer == "http://as.example:1/x?y#z")
	text := vs.And(url, t.TokenId != "", printable(m.Subject), printable(m.ClientId), printable(m.Scope), printable(m.Audience))
	times := vs.And(m.IssuedAt > 0, m.IssuedAt <= uint64(now), m.NotBefore >= m.IssuedAt, m.NotBefore <= m.ExpiresAt, m.ExpiresAt <= m.IssuedAt+life)
	if s.Calls == 0 {
		vs.Assert(err != nil && v == "", "value without serialisation")
		vs.Assert(!vs.And(text, times), "complete token refused")
		if times {
			vs.Cover("text")
		} else {
			vs.Cover("times")
		}
		return
	}
	vs.Assert(text, "incomplete token serialised")
	vs.Assert(times, "token with inconsistent times serialised")
	vs.Assert(s.Calls == 1, "serialised more than once")
	var c claims
	got := s.Decode(&c)
	vs.Assert(vs.And(c.Iss == m.Issuer, c.Sub == m.Subject, c.Aud == m.Audience, c.JTI == t.TokenId, c.CID == m.ClientId, c.Scope == m.Scope), "claims of another token")
	vs.Assert(vs.And(c.Exp == m.ExpiresAt, c.Nbf == m.NotBefore, c.Iat == m.IssuedAt), "claims with other times")
	if t.Confirmation != nil {
		vs.Assert(c.Cnf != nil && c.Cnf.Jkt == t.Confirmation.Jkt, "claims without the key binding")
		vs.Cover("bound")
	} else {
		vs.Assert(c.Cnf == nil, "claims bound to a key out of nowhere")
		vs.Cover("unbound")
	}
	known := 0
	for _, n := range names {
		if _, ok := got[n]; ok {
			known++
		}
	}
	vs.Assert(len(got) == known, "claims beyond the token's fields")
	if s.Fail {
		vs.Assert(err != nil && v == "", "value despite a failed serialisation")
		vs.Cover("fail")
		return
	}
	vs.Assert(err == nil && v == s.Out, "another value than the serialised one")
	vs.Cover("ok")
}

// Access tokens: at most two hours.
//
//gosym:bounds printable identifiers of up to 2 bytes, subjects, clients, scopes and audiences of up to 2 arbitrary bytes, 6 issuers, every 32-bit time stamp, every second between 2001 and 2061, optional key confirmation of up to 2 ASCII bytes, token and metadata absent, a serializer that fails or returns any value of up to 2 bytes
//gosym:cover missing,text,times,bound,unbound,fail,ok
func CheckAccess() {
	run(stub.Access, token.AccessToken, 2*3600)
}

// Refresh tokens: at most two weeks.
//
//gosym:bounds as above
//gosym:cover missing,text,times,bound,unbound,fail,ok
func CheckRefresh() {
	run(stub.Refresh, token.RefreshToken, 14*day)
}

// Without a serializer nothing is produced.
//
//gosym:bounds no serializer at all, or a nil one
//gosym:cover nil
func CheckNoSerializer() {
	now := stub.Now("now")
	var s token.Serializer
	if vs.Bool("typed") {
		var p *stub.Serializer
		s = p
	}
	t := &tokenv1.Token{TokenId: "t", Metadata: &tokenv1.TokenMeta{Issuer: stub.Issuer, Subject: "s", ClientId: "c", Scope: "o", Audience: "a", IssuedAt: uint64(now), NotBefore: uint64(now), ExpiresAt: uint64(now) + 60}}
	for _, g := range []token.Generator{token.AccessToken(s), token.RefreshToken(s), token.ClientAssertion(s), token.Introspection(s)} {
		v, err := g.Generate(stub.Ctx(), t)
		vs.Assert(err != nil && v == "", "value without a serializer")
	}
	vs.Cover("nil")
}
