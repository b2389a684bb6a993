package g03

import (
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long claims are serialised whole.
//
//gosym:bounds identifier, subject, client, audience and key of 601 or 5001 characters, one of them chosen by the solver, a scope of 63 words; access and refresh tokens
//gosym:cover access,refresh
func CheckLong() {
	now := uint64(stub.Now("now"))
	sh := vs.Choose("shape", stub.Shapes)
	s := &stub.Serializer{Out: stub.Long(sh, "out")}
	t := &tokenv1.Token{TokenType: stub.Access, TokenId: stub.Long(sh, "jti"), Status: stub.Active, Confirmation: &tokenv1.TokenConfirmation{Jkt: stub.Long(sh, "key")},
		Metadata: &tokenv1.TokenMeta{Issuer: stub.Issuer, Subject: stub.Long(sh, "sub"), ClientId: stub.Long(sh, "cid"), Scope: stub.LongScope("scope", true), Audience: stub.Long(sh, "aud"), IssuedAt: now, NotBefore: now, ExpiresAt: now + 60}}
	g := token.AccessToken(s)
	if vs.Choose("kind", 2) == 1 {
		t.TokenType, g = stub.Refresh, token.RefreshToken(s)
		vs.Cover("refresh")
	} else {
		vs.Cover("access")
	}
	v, err := g.Generate(stub.Ctx(), t)
	vs.Assert(err == nil && s.Calls == 1, "complete token refused")
	if err != nil || s.Calls != 1 {
		return
	}
	var c claims
	s.Decode(&c)
	m := t.Metadata
	vs.Assert(vs.And(c.Iss == m.Issuer, c.Sub == m.Subject, c.Aud == m.Audience, c.JTI == t.TokenId, c.CID == m.ClientId, c.Scope == m.Scope), "claims of another token")
	vs.Assert(c.Cnf != nil && c.Cnf.Jkt == t.Confirmation.Jkt, "claims without the key binding")
	vs.Assert(v == s.Out, "another value than the serialised one")
}
