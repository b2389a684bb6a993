// Package b02: a code is redeemed only by its client with its redirect URI and verifier.
package b02

import (
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

const alnum = "abcXYZ019-_"

// A code is redeemable exactly by its own client, redirect URI, issuer and verifier.
//
//gosym:bounds issuers over 3 values, codes of up to 3 characters, two registered clients and any session owner with ids of up to 2 bytes, redirect URIs over 4 values, client redirect lists of two entries, verifiers of 42 to 44 and 128 to 129 bytes, challenges arbitrary or derived from any verifier, challenge methods over 4 values, every dependency may fail
//gosym:cover issued,refused,fault
func CheckRedeem() {
	stub.Now("now")
	c1, c2 := stub.AllGrants(vs.StrRange("c1", 1, 2)), stub.AllGrants(vs.StrRange("c2", 1, 2))
	uris := []string{stub.Redir, stub.Redir2, "https://APP.example/cb", ""}
	c1.RedirectUris = []string{vs.Pick("r1", uris...), vs.Pick("r2", uris...)}
	vs.Assume(c1.ClientId != c2.ClientId)
	t := stub.NewTok(true, c1, c2)
	iss := []string{stub.Issuer, stub.Issuer2, "as"}
	t.Sessions.Issuer, t.Sessions.Code = vs.Pick("session.issuer", iss...), vs.StrIn("session.code", 1, 3, alnum)
	owner := vs.Str("owner", 2)
	var v string
	switch vs.Choose("verifier.len", 2) {
	case 0:
		v = vs.StrRange("verifier", 42, 44)
	default:
		v = vs.StrRange("verifier", 128, 129)
	}
	ch := ""
	derived := false
	v0 := ""
	if vs.Bool("derived") {
		v0 = vs.StrRange("real.verifier", 42, 44)
		if len(v) > 100 {
			v0 = vs.StrRange("real.verifier", 128, 129)
		}
		ch, derived = stub.Challenge(v0), true
	} else {
		ch = vs.StrRange("challenge", 42, 43)
	}
	t.Sessions.S = &sessionv1.AuthorizationCodeSession{Issuer: t.Sessions.Issuer, Subject: "user", Request: &flowv1.AuthorizationRequest{
		ClientId: owner, RedirectUri: vs.Pick("session.redirect", uris...), Scope: "openid", Audience: "a", CodeChallenge: ch, CodeChallengeMethod: vs.Pick("method", "S256", "plain", "", "s256")}}
	noreq := vs.Bool("no.request")
	sreq := t.Sessions.S.Request
	if noreq {
		t.Sessions.S.Request = nil
	}
	grant := &flowv1.GrantAuthorizationCode{Code: vs.StrIn("code", 0, 3, alnum), RedirectUri: vs.Pick("redirect", uris...), CodeVerifier: v}
	in := &flowv1.TokenRequest{Issuer: vs.Pick("issuer", iss...), Client: stub.Caller(c1.ClientId), GrantType: stub.GrantCode, Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: grant}}
	pkce := vs.And(sreq.CodeChallengeMethod == "S256", stub.Challenge(v) == ch)
	if derived {
		pkce = vs.And(sreq.CodeChallengeMethod == "S256", v == v0)
	}
	ok := vs.And(in.Issuer == t.Sessions.Issuer, in.Issuer != "as", grant.Code == t.Sessions.Code, grant.Code != "", owner == c1.ClientId, !noreq,
		grant.RedirectUri != "", grant.RedirectUri == sreq.RedirectUri, vs.Or(c1.RedirectUris[0] == grant.RedirectUri, c1.RedirectUris[1] == grant.RedirectUri),
		len(v) >= 43, len(v) <= 128, pkce)
	res, err := t.Svc.Token(stub.Ctx(), in)
	if err == nil {
		vs.Assert(res != nil && res.AccessToken != nil, "success without a token")
		vs.Assert(ok, "code redeemed that does not qualify")
		vs.Cover("issued")
		return
	}
	vs.Assert(t.L.Count("tokens.Create") == 0 || t.L.Fault, "refused redemption stored a token")
	if t.L.Fault {
		vs.Cover("fault")
	} else {
		vs.Assert(!ok, "correct redemption refused")
		vs.Cover("refused")
	}
}

// A challenge that is only like the digest of the verifier opens nothing.
//
//gosym:bounds 3 verifiers, every challenge of 42 to 44 characters of the base64url alphabet
//gosym:cover issued,refused
func CheckExact() {
	stub.Now("now")
	c := stub.AllGrants("c")
	t := stub.NewTok(false, c)
	t.Fill("c", "openid", 1500000000)
	v := []string{"dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk", "oESIiuoybVxAJ5fAKmxxM6HbJ6CvWtVLUuT7Lx0BBBB-oESIiuoybVxAJ5", "0123456789012345678901234567890123456789012"}[vs.Choose("verifier", 3)]
	ch := vs.StrIn("challenge", 42, 44, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_=")
	t.Sessions.S.Request.CodeChallenge = ch
	in := &flowv1.TokenRequest{Issuer: stub.Issuer, Client: stub.Caller("c"), GrantType: stub.GrantCode}
	stub.Grant(in, stub.GrantCode)
	in.GetAuthorizationCode().CodeVerifier = v
	_, err := t.Svc.Token(stub.Ctx(), in)
	good := ch == stub.Challenge(v)
	vs.Assert((err == nil) == good, "redemption with a challenge that is not the digest of the verifier, or refused with the one that is")
	if good {
		vs.Cover("issued")
	} else {
		vs.Cover("refused")
	}
}

// Codes beyond the accepted length never reach the store.
//
//gosym:bounds codes of 1023 to 1026 characters
//gosym:cover short,long
func CheckLength() {
	stub.Now("now")
	c := stub.AllGrants("c")
	t := stub.NewTok(false, c)
	n := 1023 + vs.Choose("n", 4)
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a'
	}
	t.Fill("c", "openid", 1500000000)
	t.Sessions.Code = string(b)
	in := &flowv1.TokenRequest{Issuer: stub.Issuer, Client: stub.Caller("c"), GrantType: stub.GrantCode}
	stub.Grant(in, stub.GrantCode)
	in.GetAuthorizationCode().Code = string(b)
	_, err := t.Svc.Token(stub.Ctx(), in)
	vs.Assert((err == nil) == (n <= 1024), "code length limit")
	if n <= 1024 {
		vs.Cover("short")
	} else {
		vs.Cover("long")
	}
}
