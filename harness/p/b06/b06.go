// Package b06: refresh accepts only the client's own live refresh token and never widens it.
package b06

import (
	"strings"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// A refresh succeeds exactly for a live refresh token of this client at this issuer.
//
//gosym:bounds every status and type value in 0..6, expiry anywhere within 2 weeks of the present, issuers over 3 values, client ids, token values, subjects and audiences of up to 2 arbitrary bytes, scopes over 4 stored and 5 requested values, grant types over 3 sets, every dependency may fail
//gosym:cover issued,refused,expired,fault
func CheckRefresh() {
	now := stub.Now("now")
	cid := vs.StrRange("cid", 1, 2)
	c := stub.AllGrants(cid)
	c.GrantTypes = []string{vs.Pick("grant1", stub.GrantRefresh, stub.GrantCode, "Refresh_Token"), vs.Pick("grant2", stub.GrantDevice, stub.GrantRefresh, "refresh")}
	t := stub.NewTok(true, c)
	t.Fill(cid, vs.Pick("scope", "openid", "openid offline_access", "a b", ""), now)
	x := t.Tokens.T
	t.Tokens.Issuer = vs.Pick("store.issuer", stub.Issuer, stub.Issuer2)
	t.Tokens.Value = vs.StrRange("store.value", 1, 2)
	x.Status = tokenv1.TokenStatus(vs.IntRange("status", 0, 6))
	x.TokenType = tokenv1.TokenType(vs.IntRange("type", 0, 6))
	x.Metadata.ClientId = vs.Str("owner", 2)
	x.Metadata.Subject, x.Metadata.Audience = vs.Str("subject", 2), vs.Str("audience", 2)
	x.Metadata.ExpiresAt = uint64(now + vs.Int64Range("left", 0, 28*86400) - 14*86400)
	m := vs.Snapshot(x.Metadata).(*tokenv1.TokenMeta)
	nometa := vs.Bool("nometa")
	if nometa {
		x.Metadata = nil
	}
	in := &flowv1.TokenRequest{Issuer: vs.Pick("issuer", stub.Issuer, stub.Issuer2, "as"), Client: stub.Caller(cid), GrantType: stub.GrantRefresh,
		Scope: stub.Opt("req.scope", vs.Pick("req.scope", "openid", "openid admin", "", "a", "offline_access")), Audience: stub.Opt("req.aud", "other")}
	in.Grant = &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: vs.Str("value", 2)}}
	reg := vs.Or(strings.EqualFold(c.GrantTypes[0], stub.GrantRefresh), strings.EqualFold(c.GrantTypes[1], stub.GrantRefresh))
	live := vs.And(x.Status == stub.Active, x.TokenType == stub.Refresh, !nometa, m.ExpiresAt >= uint64(now))
	dead := vs.Or(x.Status != stub.Active, x.TokenType != stub.Refresh, nometa, m.ExpiresAt < uint64(now))
	mine := vs.And(in.Issuer == t.Tokens.Issuer, in.GetRefreshToken().RefreshToken == t.Tokens.Value, m.ClientId == cid)
	res, err := t.Svc.Token(stub.Ctx(), in)
	if err != nil {
		vs.Assert(res != nil && stub.NoTokens(res), "refused refresh returned a token")
		if t.L.Fault {
			vs.Cover("fault")
			return
		}
		vs.Assert(!vs.And(reg, live, mine), "live refresh token refused")
		vs.Assert(t.L.Tried("tokens.Create") == 0 && t.L.Tried("tokens.Revoke") == 0, "refused refresh changed the store")
		vs.Cover("refused")
		if m.ExpiresAt < uint64(now) {
			vs.Cover("expired")
		}
		return
	}
	vs.Cover("issued")
	vs.Assert(reg, "client not registered for the grant")
	vs.Assert(!dead, "dead refresh token accepted")
	vs.Assert(mine, "foreign refresh token accepted")
	a := res.AccessToken
	vs.Assert(a != nil && a.Metadata != nil, "no access token")
	if a == nil || a.Metadata == nil {
		return
	}
	vs.Assert(a.Metadata.Subject == m.Subject, "subject changed")
	vs.Assert(a.Metadata.Audience == m.Audience, "audience changed")
	vs.Assert(a.Metadata.ClientId == cid, "client changed")
	vs.Assert(subset(a.Metadata.Scope, m.Scope), "scope widened")
	if r := res.RefreshToken; r != nil {
		vs.Assert(r.Metadata.Subject == m.Subject && r.Metadata.Audience == m.Audience && r.Metadata.ClientId == cid, "replacement of another identity")
		vs.Assert(subset(r.Metadata.Scope, m.Scope), "scope of the replacement widened")
	}
}

func subset(a, b string) bool {
	for _, x := range strings.Fields(a) {
		ok := false
		for _, y := range strings.Fields(b) {
			ok = ok || x == y
		}
		if !ok {
			return false
		}
	}
	return true
}
