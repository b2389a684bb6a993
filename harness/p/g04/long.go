package g04

import (
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long contents are answered whole, or not at all.
//
//gosym:bounds identifier, subject, client and audience of 601 or 5001 characters, one of them chosen by the solver, a scope of 63 words, active or revoked
//gosym:cover active,inactive
func CheckLong() {
	now := stub.Now("now")
	sh := vs.Choose("shape", stub.Shapes)
	s := &stub.Serializer{Out: "signed"}
	t := &tokenv1.Token{TokenType: stub.Access, TokenId: stub.Long(sh, "jti"), Status: stub.Active,
		Metadata: &tokenv1.TokenMeta{Issuer: "https://as.example/" + stub.Long(sh, "iss"), Subject: stub.Long(sh, "sub"), ClientId: stub.Long(sh, "cid"), Scope: stub.LongScope("scope", true), Audience: stub.Long(sh, "aud"), IssuedAt: uint64(now), NotBefore: uint64(now), ExpiresAt: uint64(now) + 60}}
	revoked := vs.Choose("revoked", 2) == 1
	if revoked {
		t.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
	}
	_, err := token.Introspection(s).Generate(stub.Ctx(), t)
	vs.Assert(err == nil && s.Calls == 1, "not exactly one answer")
	if s.Calls != 1 {
		return
	}
	var c claims
	all := s.Decode(&c)
	vs.Assert(c.Iss == t.Metadata.Issuer && c.TI.Active == !revoked, "answer in another name, or about another token")
	if revoked {
		ti, _ := all["token_introspection"].(map[string]any)
		vs.Assert(len(ti) == 1, "content of an inactive token revealed")
		vs.Cover("inactive")
		return
	}
	i, m := c.TI, t.Metadata
	vs.Assert(vs.And(i.Iss == m.Issuer, i.Aud == m.Audience, i.CID == m.ClientId, i.Scope == m.Scope, i.Sub == m.Subject, i.JTI == t.TokenId), "answer about another token")
	vs.Cover("active")
}
