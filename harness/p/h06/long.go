package h06

import (
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long responses survive, for their own client and issuer only.
//
//gosym:bounds code, state, issuer, client, and expected issuer and client (alike but one character) of 601 or 5001 characters, one of each chosen by the solver
//gosym:cover decoded,refused
func CheckLong() {
	vs.SetNow(1700000000)
	sh := vs.Choose("shape", stub.Shapes)
	iss, aud := stub.Long(sh, "issuer"), stub.Long(sh, "client")
	wantIss, wantAud := stub.LongAs(sh, "issuer", "expected"), stub.LongAs(sh, "client", "me")
	r := &flowv1.AuthorizeResponse{ClientId: aud, Code: stub.Long(sh, "code"), State: stub.Long(sh, "state"), ExpiresIn: 60}
	tok, err := jarm.Encoder(signer(0)).Encode(bg, iss, r)
	vs.Assert(err == nil, "complete response not encoded")
	got, err := jarm.Decoder(wantIss, verifier("", 0)).Decode(bg, wantAud, tok)
	vs.Assert((err == nil) == vs.And(iss == wantIss, aud == wantAud), "response of another issuer or client accepted, or right one refused")
	if err != nil {
		vs.Cover("refused")
		return
	}
	vs.Assert(vs.And(got.Error == nil, got.Code == r.Code, got.State == r.State, got.Issuer == iss), "response altered by encoding and decoding")
	vs.Cover("decoded")
}
