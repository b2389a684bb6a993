// Package g04: signed introspection answers reveal nothing about inactive tokens.
package g04

import (
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

type inner struct {
	Active bool   `json:"active"`
	Iss    string `json:"iss"`
	Aud    string `json:"aud"`
	Iat    uint64 `json:"iat"`
	Exp    uint64 `json:"exp"`
	CID    string `json:"client_id"`
	Scope  string `json:"scope"`
	Sub    string `json:"sub"`
	JTI    string `json:"jti"`
}

type claims struct {
	Iss string `json:"iss"`
	Iat int64  `json:"iat"`
	TI  inner  `json:"token_introspection"`
}

// The answer about any token at any instant.
//
//gosym:bounds every status in 0..5 and type in 0..4, strings of up to 2 arbitrary printable bytes, every 32-bit time stamp, every second between 2001 and 2061, token and metadata absent, a serializer that fails or returns any value of up to 2 bytes
//gosym:cover active,revoked,expired,early,missing,fail
func CheckAnswer() {
	now := stub.Now("now")
	s := &stub.Serializer{Out: vs.Str("out", 2), Fail: vs.Bool("fail")}
	g := token.Introspection(s)
	const p = " !#$%()*+,-./0123456789:;=?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_abcdefghijklmnopqrstuvwxyz{|}~"
	t := &tokenv1.Token{
		TokenType: tokenv1.TokenType(vs.IntRange("type", 0, 4)), Status: tokenv1.TokenStatus(vs.IntRange("status", 0, 5)), TokenId: vs.StrIn("jti", 0, 2, p), Confirmation: stub.Confirm("cnf"),
		Metadata: &tokenv1.TokenMeta{
			Issuer: vs.StrIn("iss", 0, 2, p), Subject: vs.StrIn("sub", 0, 2, p), ClientId: vs.StrIn("cid", 0, 2, p), Scope: vs.StrIn("scope", 0, 2, p), Audience: vs.StrIn("aud", 0, 2, p),
			IssuedAt: uint64(vs.Int64Range("iat", 0, 1<<32)), NotBefore: uint64(vs.Int64Range("nbf", 0, 1<<32)), ExpiresAt: uint64(vs.Int64Range("exp", 0, 1<<32)),
		},
	}
	vs.Fill("token", t, 4, "Confirmation")
	vs.Fill("meta", t.Metadata, 4)
	in := t
	switch vs.Choose("shape", 3) {
	case 1:
		in = nil
	case 2:
		t.Metadata = nil
	}
	m := t.Metadata
	before := vs.Snapshot(t)
	v, err := g.Generate(stub.Ctx(), in)
	vs.Assert(vs.Same(t, before), "answering changed the token")
	if in == nil || m == nil {
		vs.Assert(err != nil && v == "", "answer about a missing token")
		vs.Cover("missing")
		return
	}
	vs.Assert(s.Calls == 1, "not exactly one answer")
	if s.Calls != 1 {
		return
	}
	if s.Fail {
		vs.Assert(err != nil && v == "", "answer despite a failed serialisation")
		vs.Cover("fail")
	} else {
		vs.Assert(err == nil && v == s.Out, "another answer than the serialised one")
	}
	var c claims
	all := s.Decode(&c)
	ti, ok := all["token_introspection"].(map[string]any)
	vs.Assert(ok, "answer without its content")
	vs.Assert(len(all) == 3, "other members than issuer, instant and content")
	vs.Assert(c.Iss == m.Issuer, "answer in another name")
	vs.Assert(c.Iat == now, "answer of another instant")
	status := t.Status == stub.Active
	// the very second of expiry is left open
	if c.TI.Active {
		vs.Assert(vs.And(status, m.NotBefore <= uint64(now), m.ExpiresAt >= uint64(now)), "unusable token declared active")
		i := c.TI
		vs.Assert(vs.And(i.Iss == m.Issuer, i.Aud == m.Audience, i.Iat == m.IssuedAt, i.Exp == m.ExpiresAt, i.CID == m.ClientId, i.Scope == m.Scope, i.Sub == m.Subject, i.JTI == t.TokenId), "answer about another token")
		vs.Cover("active")
		return
	}
	vs.Assert(!vs.And(status, m.NotBefore <= uint64(now), m.ExpiresAt > uint64(now)), "usable token declared inactive")
	vs.Assert(len(ti) == 1, "content of an inactive token revealed")
	switch {
	case !status:
		vs.Cover("revoked")
	case m.ExpiresAt <= uint64(now):
		vs.Cover("expired")
	default:
		vs.Cover("early")
	}
}
