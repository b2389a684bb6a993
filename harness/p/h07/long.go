package h07

import (
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long parameters, long scopes and many resources survive.
//
//gosym:bounds 11 parameters of 601 or 5001 characters, one of each chosen by the solver, a scope of 63 words, 12 resources
//gosym:cover decoded
func CheckLong() {
	sh := vs.Choose("shape", stub.Shapes)
	p := func(l string) *string { return stub.Ptr(stub.Long(sh, l)) }
	r := &flowv1.AuthorizationRequest{
		Scope: stub.LongScope("scope", true), ResponseType: "code", ClientId: stub.Long(sh, "client_id"), RedirectUri: stub.Long(sh, "redirect_uri"),
		State: stub.Long(sh, "state"), Nonce: stub.Long(sh, "nonce"), CodeChallenge: stub.Long(sh, "code_challenge"), CodeChallengeMethod: "S256", Audience: stub.Long(sh, "audience"),
		LoginHint: p("login_hint"), AcrValues: p("acr_values"), UiLocales: p("ui_locales"), IdTokenHint: p("id_token_hint"),
	}
	for i := 0; i < 12; i++ {
		r.Resource = append(r.Resource, "https://rs.example/"+string(rune('a'+i)))
	}
	r.Resource[11] = stub.Long(sh, "resource")
	tok, err := jwsreq.AuthorizationRequestEncoder(signer(0)).Encode(bg, r)
	vs.Assert(err == nil, "request not encoded")
	_, claims, ok := jt.Parts(tok)
	vs.Assert(ok, "request object is not a signed document")
	named(r, claims)
	g, err := jwsreq.AuthorizationRequestDecoder(verifier("", 0)).Decode(bg, tok)
	vs.Assert(err == nil, "genuine request object refused")
	if err == nil {
		vs.Assert(same(r, g), "request altered by encoding and decoding")
		vs.Cover("decoded")
	}
}
