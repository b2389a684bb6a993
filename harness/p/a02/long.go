package a02

import (
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long parameters and scopes of many words are kept whole.
//
//gosym:bounds issuer, subject, client, code, state, nonce, audience and redirect URI of 601 or 5001 characters, one of them chosen by the solver, a scope of 63 words, sent directly or by reference
//gosym:cover direct,reference
func CheckLong() {
	sh := vs.Choose("shape", stub.Shapes)
	cid := stub.Long(sh, "client")
	r := stub.PlainRequest(cid)
	r.State, r.Nonce, r.Audience, r.RedirectUri = stub.Long(sh, "state"), stub.Long(sh, "nonce"), stub.Long(sh, "audience"), "https://app.example/"+stub.Long(sh, "redirect")
	r.Scope, r.Prompt = stub.LongScope("scope", true), stub.Ptr("consent")
	c := &clientv1.Client{ClientId: cid, GrantTypes: []string{"authorization_code"}, ResponseTypes: []string{"code"}, ResponseModes: []string{"query"}, RedirectUris: []string{"https://app.example/", r.RedirectUri}}
	a := stub.NewAuthz(false, c)
	a.Code.Value = stub.Long(sh, "code")
	issuer, subject := "https://as.example/"+stub.Long(sh, "issuer"), stub.Long(sh, "subject")
	want := vs.Snapshot(r).(*flowv1.AuthorizationRequest)
	in := &flowv1.AuthorizeRequest{Issuer: issuer, Subject: subject, Request: r}
	if vs.Choose("reference", 2) == 1 {
		uri := stub.Long(sh, "uri")
		a.Requests.Issuer, a.Requests.URI, a.Requests.Req = issuer, uri, r
		in.Request = &flowv1.AuthorizationRequest{RequestUri: &uri, ClientId: cid}
		vs.Cover("reference")
	} else {
		vs.Cover("direct")
	}
	res, err := a.Svc.Authorize(stub.Ctx(), in)
	vs.Assert(err == nil, "acceptable request refused")
	if err != nil {
		return
	}
	ev := a.L.Get("sessions.Register")
	vs.Assert(ev != nil && ev.Issuer == issuer && ev.Key == a.Code.Value, "session registered elsewhere")
	if ev == nil {
		return
	}
	s := ev.Val.(*sessionv1.AuthorizationCodeSession)
	vs.Assert(vs.And(s.Issuer == issuer, s.Subject == subject), "session names another issuer or subject")
	vs.Assert(s.Request != nil && vs.Same(s.Request, want), "session request differs from the granted request")
	vs.Assert(vs.And(res.Code == a.Code.Value, res.State == want.State, res.RedirectUri == want.RedirectUri, res.ClientId == cid, res.Issuer == issuer), "response differs from the granted request")
}
