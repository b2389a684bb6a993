// Package b05: a token is returned only after it has a value and has been stored.
package b05

import (
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

func stored(t *stub.Tok, x *tokenv1.Token, what string) {
	vs.Assert(x.Value != "", what+" without a value")
	found := false
	for _, e := range t.L.Ev {
		if e.Op == "tokens.Create" && e.OK {
			found = vs.Or(found, vs.And(e.Issuer == stub.Issuer, vs.Same(e.Val, x)))
		}
	}
	vs.Assert(found, what+" returned without having been stored as such under its issuer")
	gen := false
	for _, e := range t.L.Ev {
		if (e.Op == "at.Generate" || e.Op == "rt.Generate") && e.OK {
			g := e.Val.(*tokenv1.Token)
			gen = vs.Or(gen, vs.And(e.Key == x.Value, g.TokenId == x.TokenId, vs.Same(g.Metadata, x.Metadata)))
		}
	}
	vs.Assert(gen, what+" has a value that was not generated for it")
}

// Every grant, with generators returning any value and every store call failing.
//
//gosym:bounds all five grants, 3 scopes (plain, repeated words, double blank), generated values of up to 2 bytes, every dependency may fail, refresh tokens with 0 to 2 hours left
//gosym:cover tokens,two,empty,genfail,storefail
func CheckStored() {
	now := stub.Now("now")
	t := stub.NewTok(true, stub.AllGrants("c"))
	t.AT.Values = []string{vs.Str("at.value", 2)}
	t.RT.Values = []string{vs.Str("rt.value", 2)}
	t.Fill("c", []string{"openid offline_access", "openid email offline_access email openid", "a b openid c  d offline_access"}[vs.Choose("scope", 3)], now)
	t.Tokens.T.Metadata.ExpiresAt = uint64(now + vs.Int64Range("left", 0, 7200))
	in := &flowv1.TokenRequest{Issuer: stub.Issuer, Client: stub.Caller("c"), Scope: stub.Ptr("openid"), TokenConfirmation: stub.Confirm("cnf")}
	in.GrantType = stub.Grants[vs.Choose("grant", len(stub.Grants))]
	if in.GrantType == stub.GrantExchange {
		t.Tokens.T.TokenType = stub.Access
		in.Audience = stub.Opt("aud", "res")
	}
	stub.Grant(in, in.GrantType)
	res, err := t.Svc.Token(stub.Ctx(), in)
	vs.Assert(res != nil, "nil response")
	if err != nil {
		vs.Assert(stub.NoTokens(res), "failed request returned a token")
		vs.Assert(res.Error != nil, "failed request without an error")
		switch {
		case t.L.Tried("at.Generate") > t.L.Count("at.Generate"):
			vs.Cover("genfail")
		case t.L.Tried("tokens.Create") > t.L.Count("tokens.Create"):
			vs.Cover("storefail")
		case !t.L.Fault:
			vs.Assert(vs.Or(t.AT.Values[0] == "", t.RT.Values[0] == ""), "valid grant refused")
			vs.Cover("empty")
		}
		return
	}
	vs.Assert(res.AccessToken != nil, "success without a token")
	if res.AccessToken == nil {
		return
	}
	stored(t, res.AccessToken, "access token")
	vs.Cover("tokens")
	if res.RefreshToken != nil {
		stored(t, res.RefreshToken, "refresh token")
		vs.Cover("two")
	}
}
