// Package b10: token exchange only narrows a live subject token for a known audience.
package b10

import (
	"strings"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

func words(s string) types { return strings.Fields(s) }

type types []string

func (t types) has(w string) bool {
	r := false
	for _, x := range t {
		r = r || x == w
	}
	return r
}

// An exchange succeeds exactly for a live access token, a narrower scope and a registered audience.
//
//gosym:bounds every status and type value in 0..6, validity times within 2 hours of the present, issuers over 3 values, client ids, token values, subjects, audiences and resource names of up to 2 arbitrary bytes, scopes over 4 stored and 6 requested values, subject token types over 4 values, grant types over 2 sets, key confirmations absent, empty or of up to 2 arbitrary bytes, every dependency may fail
//gosym:cover issued,refused,expired,early,fault,target,narrowed,short
func CheckExchange() {
	now := stub.Now("now")
	cid := vs.StrRange("cid", 1, 2)
	c := stub.AllGrants(cid)
	c.GrantTypes = []string{stub.GrantCode, vs.Pick("grant", stub.GrantExchange, "token_exchange", "")}
	t := stub.NewTok(true, c)
	t.Fill("o", vs.Pick("scope", "openid", "a b", "a offline_access", ""), now)
	x := t.Tokens.T
	t.Tokens.Issuer, t.Tokens.Value = vs.Pick("store.issuer", stub.Issuer, stub.Issuer2), vs.StrRange("store.value", 1, 2)
	x.Status = tokenv1.TokenStatus(vs.IntRange("status", 0, 6))
	x.TokenType = tokenv1.TokenType(vs.IntRange("type", 0, 6))
	x.Metadata.Issuer = t.Tokens.Issuer
	x.Metadata.Subject, x.Metadata.Audience = vs.Str("subject", 2), vs.Str("audience", 2)
	x.Metadata.ExpiresAt = uint64(now + vs.Int64Range("left", -7200, 7200))
	x.Metadata.NotBefore = uint64(now + vs.Int64Range("from", -7200, 7200))
	x.Confirmation = stub.Confirm("cnf")
	t.Resources.URI = vs.StrRange("res.uri", 1, 2)
	t.Resources.R.Urn = vs.StrRange("res.urn", 1, 2)
	nometa := vs.Bool("nometa")
	m := vs.Snapshot(x.Metadata).(*tokenv1.TokenMeta)
	if nometa {
		x.Metadata = nil
	}
	before := vs.Snapshot(x).(*tokenv1.Token)
	in := &flowv1.TokenRequest{Issuer: vs.Pick("issuer", stub.Issuer, stub.Issuer2, "as"), Client: stub.Caller(cid), GrantType: stub.GrantExchange, TokenConfirmation: stub.Confirm("req.cnf"),
		Scope: stub.Opt("req.scope", vs.Pick("req.scope", "openid", "openid admin", "", "a", "b a", "offline_access")), Audience: stub.Opt("req.aud", vs.Str("req.aud", 2))}
	typ := vs.Pick("sttype", stub.ATType, "urn:ietf:params:oauth:token-type:refresh_token", "", "access_token")
	in.Grant = &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: vs.Str("value", 2), SubjectTokenType: typ}}
	res, err := t.Svc.Token(stub.Ctx(), in)
	vs.Assert(vs.Same(x, before), "the subject token was changed")
	vs.Assert(t.L.Tried("tokens.Revoke") == 0 && t.L.Tried("tokens.Delete") == 0, "the subject token was withdrawn")
	reg := strings.EqualFold(c.GrantTypes[1], stub.GrantExchange)
	mine := vs.And(in.Issuer == t.Tokens.Issuer, in.GetTokenExchange().SubjectToken == t.Tokens.Value, typ == stub.ATType)
	live := vs.And(x.Status == stub.Active, x.TokenType == stub.Access, !nometa, m.ExpiresAt >= uint64(now), m.NotBefore <= uint64(now))
	narrow := true
	have := words(m.Scope)
	if in.Scope != nil {
		for _, w := range words(*in.Scope) {
			narrow = narrow && have.has(w)
		}
	}
	target := true
	if in.Audience != nil {
		target = *in.Audience == t.Resources.URI
	}
	if err != nil {
		vs.Assert(res != nil && res.Error != nil && res.Error.Err != "", "refused without an error code")
		vs.Assert(stub.NoTokens(res), "refused exchange returned a token")
		if t.L.Fault {
			vs.Cover("fault")
			return
		}
		vs.Assert(!vs.And(reg, mine, live, narrow, target), "right exchange refused")
		vs.Assert(t.L.Tried("tokens.Create") == 0, "refused exchange stored a token")
		vs.Cover("refused")
		if reg && mine {
			if m.ExpiresAt < uint64(now) {
				vs.Cover("expired")
			} else if m.NotBefore > uint64(now) {
				vs.Cover("early")
			}
			if live && narrow {
				vs.Cover("target")
			}
		}
		return
	}
	vs.Cover("issued")
	vs.Assert(res.Error == nil, "success with an error")
	vs.Assert(reg, "client not registered for the grant")
	vs.Assert(mine, "token accepted that is not the presented one")
	vs.Assert(live, "dead or unfit subject token accepted")
	vs.Assert(narrow, "scope widened")
	vs.Assert(target, "unknown audience accepted")
	vs.Assert(res.RefreshToken == nil && res.IdToken == nil, "exchange gave another token")
	a := res.AccessToken
	if a == nil || a.Metadata == nil {
		vs.Assert(false, "no access token")
		return
	}
	n := a.Metadata
	vs.Assert(vs.And(a.TokenType == stub.Access, a.Status == stub.Active, a.Value == "at1"), "not a live access token")
	vs.Assert(n.Subject == m.Subject, "subject changed")
	vs.Assert(n.Issuer == in.Issuer, "issuer changed")
	vs.Assert(n.ClientId == cid, "token of another client")
	want := m.Scope
	if in.Scope != nil {
		want = *in.Scope
		vs.Cover("narrowed")
	}
	vs.Assert(n.Scope == want, "scope is not the requested one")
	vs.Assert(n.Scope == m.Scope || res.Scope != nil, "the client is not told that the scope is narrower")
	vs.Assert(res.Issuer == in.Issuer, "response of another issuer")
	vs.Assert(res.IssuedTokenType != nil && *res.IssuedTokenType == stub.ATType, "the client is not told what kind of token it got")
	vs.Assert(res.Scope == nil || *res.Scope == n.Scope, "the client is told another scope than the token has")
	if in.Audience == nil {
		vs.Assert(n.Audience == m.Audience, "audience changed")
	} else {
		vs.Assert(n.Audience == t.Resources.R.Urn, "audience is not the resource")
	}
	vs.Assert(n.ExpiresAt <= m.ExpiresAt, "outlives the subject token")
	vs.Assert(vs.And(n.IssuedAt == uint64(now), n.NotBefore == uint64(now), n.ExpiresAt >= uint64(now), n.ExpiresAt <= uint64(now)+3600), "times of the new token")
	if m.ExpiresAt < uint64(now)+60 {
		vs.Cover("short")
	}
	if k := before.GetConfirmation().GetJkt(); k != "" {
		vs.Assert(a.GetConfirmation().GetJkt() == k, "key binding lost")
	} else {
		vs.Assert(a.GetConfirmation().GetJkt() == in.GetTokenConfirmation().GetJkt(), "not bound to the presented key")
	}
	st, iss := t.Stored("at1")
	vs.Assert(st != nil && iss == in.Issuer, "token not stored")
}
