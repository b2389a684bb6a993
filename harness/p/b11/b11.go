// Package b11: introspection reports a token active only while it really is.
package b11

import (
	"context"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

type sink struct{ claims map[string]any }

func (s *sink) Serialize(_ context.Context, c any) (string, error) {
	s.claims = c.(map[string]any)
	return "signed", nil
}
func (s *sink) ContentType() string { return "" }

// The answer of the service, and the activity stated by the signed answer built from it.
//
//gosym:bounds every status and type value in 0..6, any validity times, issuers over 4 values, client ids, token values and members of up to 2 arbitrary bytes, client absent, hint absent or over 3 values, every dependency may fail
//gosym:cover active,inactive,unknown,refused,fault,stranger
func CheckIntrospect() {
	now := stub.Now("now")
	cid := vs.StrRange("cid", 1, 2)
	t := stub.NewTok(true, stub.AllGrants(cid))
	t.Fill("o", "openid", now)
	x := t.Tokens.T
	t.Tokens.Issuer, t.Tokens.Value = vs.Pick("store.issuer", stub.Issuer, stub.Issuer2), vs.StrRange("store.value", 1, 2)
	x.Status = tokenv1.TokenStatus(vs.IntRange("status", 0, 6))
	x.TokenType = tokenv1.TokenType(vs.IntRange("type", 0, 6))
	x.TokenId = vs.Str("tid", 2)
	m := x.Metadata
	m.Issuer, m.ClientId, m.Subject, m.Audience, m.Scope = t.Tokens.Issuer, vs.Str("owner", 2), vs.Str("subject", 2), vs.Str("audience", 2), vs.Str("scope", 2)
	m.ExpiresAt, m.NotBefore, m.IssuedAt = vs.Uint64("exp"), vs.Uint64("nbf"), vs.Uint64("iat")
	before := vs.Snapshot(x).(*tokenv1.Token)
	in := &tokenv1.IntrospectRequest{Issuer: vs.Pick("issuer", stub.Issuer, stub.Issuer2, "as", ""), Token: vs.Str("value", 2), TokenTypeHint: stub.Opt("hint", vs.Pick("hint", "access_token", "refresh_token", "other"))}
	if vs.Bool("client") {
		in.Client = stub.Caller(vs.Str("caller", 2))
	}
	var req *tokenv1.IntrospectRequest
	if vs.Bool("given") {
		req = in
	}
	res, err := t.Svc.Introspect(stub.Ctx(), req)
	vs.Assert(vs.Same(x, before), "introspection changed the token")
	vs.Assert(t.L.Tried("tokens.Create") == 0 && t.L.Tried("tokens.Revoke") == 0 && t.L.Tried("tokens.Delete") == 0, "introspection changed the store")
	vs.Assert(res != nil, "no response")
	ok := vs.And(req != nil, vs.Or(in.Issuer == stub.Issuer, in.Issuer == stub.Issuer2), in.Client != nil, in.GetClient().GetClientId() == cid, in.Token != "")
	if err != nil {
		vs.Assert(res.Token == nil, "refused introspection returned a token")
		vs.Assert(res.Error != nil && res.Error.Err != "", "refused without an error code")
		if t.L.Fault {
			vs.Cover("fault")
			return
		}
		vs.Assert(!ok, "right introspection refused")
		vs.Cover("refused")
		if req != nil && in.Client != nil && in.Client.ClientId != cid {
			vs.Cover("stranger")
		}
		return
	}
	vs.Assert(ok, "introspection by a stranger or without a token")
	vs.Assert(res.Error == nil, "success with an error")
	vs.Assert(res.Token != nil, "no token")
	if res.Token == nil {
		return
	}
	known := vs.And(in.Issuer == t.Tokens.Issuer, in.Token == t.Tokens.Value)
	sk := &sink{}
	_, gerr := token.Introspection(sk).Generate(stub.Ctx(), res.Token)
	if t.L.Get("tokens.GetByValue") == nil {
		vs.Assert(!known, "stored token not found")
		vs.Assert(res.Token.Status != stub.Active, "unknown token active")
		vs.Assert(res.Token.Metadata == nil, "details of an unknown token")
		vs.Assert(!token.IsUsable(res.Token), "unknown token usable")
		vs.Cover("unknown")
		return
	}
	vs.Assert(known, "details of another token")
	vs.Assert(vs.Same(res.Token, before), "another token's details")
	vs.Assert(gerr == nil, "no signed answer")
	active, _ := sk.claims["token_introspection"].(map[string]any)["active"].(bool)
	usable := vs.And(x.Status == stub.Active, m.ExpiresAt >= uint64(now), m.NotBefore <= uint64(now))
	vs.Assert(vs.Implies(active, usable), "unusable token active")
	// times no clock reaches are not asked to count as the future
	vs.Assert(vs.Implies(vs.And(usable, m.ExpiresAt < 1<<62), active), "activity is not that of the token")
	if active {
		vs.Cover("active")
	} else {
		vs.Cover("inactive")
	}
}
