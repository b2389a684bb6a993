package b04

import (
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long identities and scopes of many words are kept whole.
//
//gosym:bounds client, subject, audience and key of 601 or 5001 characters, one of them chosen by the solver, scopes of 62 or 63 words; code, client credentials, device and refresh grants
//gosym:cover code,client,device,refresh
func CheckLong() {
	now := stub.Now("now")
	sh := vs.Choose("shape", stub.Shapes)
	cid := stub.Long(sh, "client")
	t := stub.NewTok(false, stub.AllGrants(cid))
	offline := vs.Choose("offline", 2) == 1
	w := want{client: cid, subject: stub.Long(sh, "subject"), audience: stub.Long(sh, "audience"), scope: stub.LongScope("scope", offline), bound: true, jkt: stub.Long(sh, "key")}
	t.Fill(cid, w.scope, now)
	t.Sessions.S.Subject, t.Sessions.S.Request.Audience = w.subject, w.audience
	t.Devices.S.Subject, t.Devices.S.Audience = &w.subject, &w.audience
	m := t.Tokens.T.Metadata
	m.Subject, m.Audience = w.subject, w.audience
	m.ExpiresAt = uint64(now) + 60
	kind := []string{stub.GrantCode, stub.GrantClient, stub.GrantDevice, stub.GrantRefresh}[vs.Choose("grant", 4)]
	in := &flowv1.TokenRequest{Issuer: stub.Issuer, Client: stub.Caller(cid), GrantType: kind, TokenConfirmation: &tokenv1.TokenConfirmation{Jkt: w.jkt}}
	stub.Grant(in, kind)
	again := offline
	switch kind {
	case stub.GrantCode:
		vs.Cover("code")
	case stub.GrantClient:
		w.subject, again = "", false
		in.Scope, in.Audience = &w.scope, &w.audience
		vs.Cover("client")
	case stub.GrantDevice:
		vs.Cover("device")
	default:
		again = true
		vs.Cover("refresh")
	}
	res, err := t.Svc.Token(stub.Ctx(), in)
	vs.Assert(err == nil && res.AccessToken != nil, "valid grant refused")
	if err != nil || res.AccessToken == nil {
		return
	}
	check(t, res.AccessToken, stub.Access, "at1", hour, now, w)
	vs.Assert((res.RefreshToken != nil) == again, "refresh token presence does not follow the grant")
	if res.RefreshToken != nil {
		check(t, res.RefreshToken, stub.Refresh, "rt1", week, now, w)
	}
}
