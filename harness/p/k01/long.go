package k01

import (
	"net/url"

	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long tokens and assertions are sent whole, and long answers are read whole.
//
//gosym:bounds token, assertion and members of the answer of 601 or 5001 characters, one of them chosen by the solver; introspection and client credentials
//gosym:cover introspection,credentials
func CheckLong() {
	stub.Now("now")
	sh := vs.Choose("shape", stub.Shapes)
	tok, assertion := stub.Long(sh, "token"), stub.Long(sh, "assertion")
	want := url.Values{"client_assertion": {assertion}, "client_assertion_type": {"urn:ietf:params:oauth:client-assertion-type:jwt-bearer"}}
	if vs.Choose("call", 2) == 0 {
		sub, cid, scope, jkt := stub.Long(sh, "sub"), stub.Long(sh, "cid"), stub.LongScope("scope", true), stub.Long(sh, "jkt")
		s := serve(answer{status: 200, body: doc(map[string]any{"active": true, "iss": "https://as.example", "sub": sub, "client_id": cid, "scope": scope, "cnf": map[string]any{"jkt": jkt}})})
		c := up(s)
		t, err := c.Introspect(stub.Ctx(), assertion, tok)
		vs.Assert(len(s.reqs) == 1, "not one request")
		want.Set("token", tok)
		post(s.reqs[0], "https://as.example/introspect", want)
		vs.Assert(err == nil && t != nil && t.Metadata != nil && t.Confirmation != nil, "proper answer refused")
		if err == nil && t != nil && t.Metadata != nil && t.Confirmation != nil {
			vs.Assert(vs.And(t.Value == tok, t.Metadata.Subject == sub, t.Metadata.ClientId == cid, t.Metadata.Scope == scope, t.Confirmation.Jkt == jkt), "another token's content")
		}
		vs.Cover("introspection")
		return
	}
	s := serve(answer{status: 200, body: doc(map[string]any{"access_token": tok, "token_type": "DPoP", "expires_in": 60})})
	c := up(s)
	t, err := c.ClientCredentials(stub.Ctx(), assertion)
	vs.Assert(len(s.reqs) == 1, "not one request")
	want.Set("grant_type", "client_credentials")
	post(s.reqs[0], "https://as.example/token", want)
	vs.Assert(err == nil && t != nil && t.AccessToken == tok, "another token than the server's")
	vs.Cover("credentials")
}
