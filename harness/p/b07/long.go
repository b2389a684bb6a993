package b07

import (
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long keys that differ in one character are different keys.
//
//gosym:bounds stored and presented key confirmations of 43, 601 or 5001 characters that differ in at most one, refresh tokens with 0 or more than 1 hour left
//gosym:cover same,foreign
func CheckLong() {
	now := stub.Now("now")
	sh := vs.Choose("shape", 2+stub.Shapes)
	one, two := "", ""
	const thumb = "NzbLsXh8uDCcd-6MNwXF4W_7noWXFZAfHkxZsRGC9X"
	switch sh {
	case 0:
		one, two = thumb+vs.StrIn("one", 1, 1, "aAb~"), thumb+vs.StrIn("two", 1, 1, "aAb~")
	case 1:
		one, two = vs.StrIn("one", 1, 1, "aAb~")+thumb, vs.StrIn("two", 1, 1, "aAb~")+thumb
	default:
		one, two = stub.Long(sh-2, "key"), stub.LongAs(sh-2, "key", "presented")
	}
	t := stub.NewTok(false, stub.AllGrants("c"))
	t.Fill("c", "openid", now)
	x := t.Tokens.T
	x.Metadata.ExpiresAt = uint64(now) + []uint64{60, 90000}[vs.Choose("left", 2)]
	x.Confirmation = &tokenv1.TokenConfirmation{Jkt: one}
	in := &flowv1.TokenRequest{Issuer: stub.Issuer, Client: stub.Caller("c"), GrantType: stub.GrantRefresh, TokenConfirmation: &tokenv1.TokenConfirmation{Jkt: two}}
	stub.Grant(in, stub.GrantRefresh)
	res, err := t.Svc.Token(stub.Ctx(), in)
	vs.Assert((err == nil) == (one == two), "refresh with another key accepted, or with the right one refused")
	if err != nil {
		vs.Cover("foreign")
		return
	}
	vs.Assert(res.AccessToken.GetConfirmation().GetJkt() == one, "access token not bound to the key of the refresh token")
	vs.Assert(res.RefreshToken == nil || res.RefreshToken.GetConfirmation().GetJkt() == one, "replacement not bound to the key of the refresh token")
	vs.Cover("same")
}
