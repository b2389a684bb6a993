package a04

import (
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long requests are stored whole, and only for their own client.
//
//gosym:bounds issuer, client, caller, reference, state, nonce, audience and redirect URI of 601 or 5001 characters, one of them chosen by the solver, a scope of 62 words
//gosym:cover registered,foreign,unregistered
func CheckLong() {
	sh := vs.Choose("shape", stub.Shapes)
	cid := stub.Long(sh, "client")
	r := stub.PlainRequest(cid)
	r.State, r.Nonce, r.Audience, r.Scope = stub.Long(sh, "state"), stub.Long(sh, "nonce"), stub.Long(sh, "audience"), stub.LongScope("scope", false)
	r.RedirectUri = "https://app.example/" + stub.Long(sh, "redirect")
	reg, caller := "https://app.example/"+stub.LongAs(sh, "redirect", "registered"), stub.LongAs(sh, "client", "caller")
	c := &clientv1.Client{ClientId: cid, GrantTypes: []string{"authorization_code"}, ResponseTypes: []string{"code"}, ResponseModes: []string{"query"}, RedirectUris: []string{reg}}
	a := stub.NewAuthz(false, c)
	a.URI.Value = stub.Long(sh, "uri")
	issuer := "https://as.example/" + stub.Long(sh, "issuer")
	want := vs.Snapshot(r).(*flowv1.AuthorizationRequest)
	res, err := a.Svc.Register(stub.Ctx(), &flowv1.RegistrationRequest{Issuer: issuer, Client: &clientv1.Client{ClientId: caller}, Request: r})
	ev := a.L.Get("requests.Register")
	if err != nil {
		vs.Assert(ev == nil && res.GetRequestUri() == "", "refused request was stored")
		vs.Assert(vs.Or(caller != cid, reg != want.RedirectUri), "acceptable request refused")
		if caller != cid {
			vs.Cover("foreign")
		} else {
			vs.Cover("unregistered")
		}
		return
	}
	vs.Assert(vs.And(caller == cid, reg == want.RedirectUri), "request stored that does not qualify")
	vs.Assert(ev != nil && ev.Issuer == issuer && ev.Key == a.URI.Value && res.RequestUri == ev.Key, "request stored elsewhere")
	if ev != nil {
		vs.Assert(vs.Same(ev.Val, want), "stored request differs from the pushed one")
	}
	vs.Cover("registered")
}
