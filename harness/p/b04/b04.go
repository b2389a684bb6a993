// Package b04: issued tokens carry exactly the granted identity, lifetime and key binding.
package b04

import (
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

const (
	hour = 3600
	week = 7 * 24 * hour
)

type want struct {
	client, subject, audience, scope, jkt string
	bound                                 bool
}

func check(t *stub.Tok, x *tokenv1.Token, kind tokenv1.TokenType, value string, life uint64, now int64, w want) {
	what := "access"
	if kind == stub.Refresh {
		what = "refresh"
	}
	vs.Assert(x.TokenType == kind, what+" token has another type")
	vs.Assert(x.Status == stub.Active, what+" token is not active")
	vs.Assert(x.Value == value, what+" token has another value than the generated one")
	m := x.Metadata
	vs.Assert(m != nil, what+" token without metadata")
	if m == nil {
		return
	}
	vs.Assert(m.Issuer == stub.Issuer, what+" token names another issuer")
	vs.Assert(m.ClientId == w.client, what+" token names another client")
	vs.Assert(m.Subject == w.subject, what+" token names another subject")
	vs.Assert(m.Audience == w.audience, what+" token names another audience")
	vs.Assert(m.Scope == w.scope, what+" token has another scope")
	vs.Assert(m.IssuedAt == uint64(now), what+" token issued at another instant")
	vs.Assert(m.ExpiresAt == uint64(now)+life, what+" token has another lifetime")
	vs.Assert(m.NotBefore <= m.ExpiresAt, what+" token expires before it becomes valid")
	vs.Assert(m.NotBefore >= m.IssuedAt, what+" token valid before it was issued")
	vs.Assert(m.NotBefore <= uint64(now)+60, what+" token not usable within a minute")
	if w.bound {
		vs.Assert(x.Confirmation != nil && x.Confirmation.Jkt == w.jkt, what+" token is not bound to the presented key")
	} else {
		vs.Assert(x.Confirmation.GetJkt() == "", what+" token bound to a key out of nowhere")
	}
	vs.Assert(x.TokenId != "", what+" token without identifier")
}

// Tokens of the code, client credentials and device grants.
//
//gosym:bounds client, subject, audience of up to 2 bytes, 14 scopes with repeated and near-miss words, optional key confirmation of 1 or 2 bytes, every second between 2001 and 2061
//gosym:cover code,client,device,refresh,bound,unbound,noopenid
func CheckIssued() {
	now := stub.Now("now")
	cid := vs.StrRange("cid", 1, 2)
	t := stub.NewTok(false, stub.AllGrants(cid))
	scope := stub.Scopes[vs.Choose("scope", len(stub.Scopes))]
	t.Fill(cid, scope, now)
	w := want{client: cid, subject: vs.StrRange("subject", 1, 2), audience: vs.StrRange("audience", 1, 2), scope: scope}
	t.Sessions.S.Subject, t.Sessions.S.Request.Audience = w.subject, w.audience
	t.Devices.S.Subject, t.Devices.S.Audience = &w.subject, &w.audience
	in := &flowv1.TokenRequest{Issuer: stub.Issuer, Client: stub.Caller(cid)}
	if vs.Bool("bound") {
		w.bound, w.jkt = true, vs.StrRange("jkt", 1, 2)
		in.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: w.jkt}
		vs.Cover("bound")
	} else {
		vs.Cover("unbound")
	}
	kind := []string{stub.GrantCode, stub.GrantClient, stub.GrantDevice}[vs.Choose("grant", 3)]
	in.GrantType = kind
	stub.Grant(in, kind)
	offline := stub.HasWord(scope, "offline_access")
	openid := stub.HasWord(scope, "openid")
	switch kind {
	case stub.GrantCode:
		vs.Cover("code")
	case stub.GrantClient:
		w.subject = ""
		in.Scope, in.Audience = &w.scope, &w.audience
		offline = false
		vs.Cover("client")
	default:
		vs.Cover("device")
	}
	res, err := t.Svc.Token(stub.Ctx(), in)
	vs.Assert(err == nil, "valid grant refused")
	if err != nil {
		return
	}
	if kind == stub.GrantCode && !openid {
		vs.Assert(stub.NoTokens(res) && t.L.Tried("tokens.Create") == 0, "tokens without the openid scope")
		vs.Cover("noopenid")
		return
	}
	vs.Assert(res.AccessToken != nil, "no access token")
	if res.AccessToken == nil {
		return
	}
	check(t, res.AccessToken, stub.Access, "at1", hour, now, w)
	vs.Assert((res.RefreshToken != nil) == offline, "refresh token presence does not follow offline_access")
	if res.RefreshToken != nil {
		check(t, res.RefreshToken, stub.Refresh, "rt1", week, now, w)
		vs.Cover("refresh")
	}
}

// Tokens of the refresh grant.
//
//gosym:bounds as above, refresh tokens with 0 to 8 days left, bound or not, request key of up to 2 bytes or none
//gosym:cover rotated,kept,bound,fresh
func CheckRefreshed() {
	now := stub.Now("now")
	cid := vs.StrRange("cid", 1, 2)
	t := stub.NewTok(false, stub.AllGrants(cid))
	t.Fill(cid, vs.Pick("scope", "openid", "openid offline_access", "a b", "openid offline_access email openid", ""), now)
	m := t.Tokens.T.Metadata
	m.Subject, m.Audience = vs.StrRange("subject", 1, 2), vs.StrRange("audience", 1, 2)
	m.ExpiresAt = uint64(now + vs.Int64Range("left", 0, 8*24*hour))
	w := want{client: cid, subject: m.Subject, audience: m.Audience, scope: m.Scope}
	in := &flowv1.TokenRequest{Issuer: stub.Issuer, Client: stub.Caller(cid), GrantType: stub.GrantRefresh}
	stub.Grant(in, stub.GrantRefresh)
	switch vs.Choose("bind", 3) {
	case 1:
		w.bound, w.jkt = true, vs.StrRange("jkt", 1, 2)
		t.Tokens.T.Confirmation = &tokenv1.TokenConfirmation{Jkt: w.jkt}
		in.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: w.jkt}
		vs.Cover("bound")
	case 2:
		w.bound, w.jkt = true, vs.StrRange("jkt", 1, 2)
		in.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: w.jkt}
		vs.Cover("fresh")
	}
	left := m.ExpiresAt - uint64(now)
	res, err := t.Svc.Token(stub.Ctx(), in)
	vs.Assert(err == nil, "valid refresh refused")
	if err != nil {
		return
	}
	vs.Assert(res.AccessToken != nil, "no access token")
	if res.AccessToken == nil {
		return
	}
	check(t, res.AccessToken, stub.Access, "at1", hour, now, w)
	if res.RefreshToken != nil {
		check(t, res.RefreshToken, stub.Refresh, "rt1", week, now, w)
		vs.Assert(left < hour, "refresh token rotated far from its expiry")
		vs.Cover("rotated")
	} else {
		vs.Assert(left >= hour, "refresh token about to expire was not replaced")
		vs.Cover("kept")
	}
}
