package b02

import (
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long values that differ in one character do not match.
//
//gosym:bounds client, session owner, and presented, granted and registered redirect URIs of 601 or 5001 characters, code of 601 characters, verifier and real verifier of 43 to 128, all alike but one character
//gosym:cover issued,refused
func CheckLong() {
	stub.Now("now")
	sh := vs.Choose("shape", stub.Shapes)
	cid, owner := stub.Long(sh, "client"), stub.LongAs(sh, "client", "owner")
	uri := func(label string) string { return "https://app.example/" + stub.LongAs(sh, "redirect", label) }
	// one thing may be wrong
	wrong := vs.Choose("wrong", 4)
	granted, presented, registered := uri("granted"), "", ""
	presented, registered = granted, granted
	code, asked := stub.Long(sh%2, "code"), ""
	asked = code
	pre, suf := []string{"", stub.Verifier[:42], stub.Verifier + stub.Verifier}[sh], []string{stub.Verifier[:42], "", stub.Verifier[:41]}[sh]
	real := pre + vs.StrIn("real", 1, 1, "aAb~") + suf
	verifier := real
	switch wrong {
	case 0:
		owner = cid
		presented, registered = uri("presented"), uri("registered")
	case 1:
	case 2:
		owner = cid
		asked = stub.LongAs(sh%2, "code", "asked")
	case 3:
		owner = cid
		verifier = pre + vs.StrIn("verifier", 1, 1, "aAb~") + suf
	}
	c := stub.AllGrants(cid)
	c.RedirectUris = []string{"https://app.example/", registered}
	t := stub.NewTok(false, c)
	t.Sessions.Issuer, t.Sessions.Code = stub.Issuer, code
	t.Sessions.S = &sessionv1.AuthorizationCodeSession{Issuer: stub.Issuer, Subject: "user", Request: &flowv1.AuthorizationRequest{
		ClientId: owner, RedirectUri: granted, Scope: "openid", Audience: "a", CodeChallenge: stub.Challenge(real), CodeChallengeMethod: "S256"}}
	res, err := t.Svc.Token(stub.Ctx(), &flowv1.TokenRequest{Issuer: stub.Issuer, Client: &clientv1.Client{ClientId: cid}, GrantType: stub.GrantCode,
		Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: asked, RedirectUri: presented, CodeVerifier: verifier}}})
	ok := vs.And(owner == cid, presented == granted, registered == presented, asked == code, verifier == real)
	if err != nil {
		vs.Assert(!ok, "correct redemption refused")
		vs.Assert(stub.NoTokens(res) && t.L.Tried("tokens.Create") == 0, "refused redemption gave a token")
		vs.Cover("refused")
		return
	}
	vs.Assert(ok && res.AccessToken != nil, "code redeemed that does not qualify")
	vs.Cover("issued")
}
