package b06

import (
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long values that differ in one character do not match.
//
//gosym:bounds client, token owner, stored and presented value of 601 or 5001 characters that differ in at most one
//gosym:cover refreshed,foreign,unknown
func CheckLong() {
	now := stub.Now("now")
	sh := vs.Choose("shape", stub.Shapes)
	cid, owner := stub.Long(sh, "client"), stub.LongAs(sh, "client", "owner")
	t := stub.NewTok(false, stub.AllGrants(cid))
	t.Fill(owner, "openid", now)
	t.Tokens.Value = stub.Long(sh, "value")
	asked := stub.LongAs(sh, "value", "asked")
	res, err := t.Svc.Token(stub.Ctx(), &flowv1.TokenRequest{Issuer: stub.Issuer, Client: &clientv1.Client{ClientId: cid}, GrantType: stub.GrantRefresh,
		Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: asked}}})
	vs.Assert((err == nil) == vs.And(cid == owner, asked == t.Tokens.Value), "foreign refresh token accepted, or own one refused")
	switch {
	case err == nil:
		vs.Assert(res.AccessToken.GetMetadata().GetClientId() == cid, "token of another client")
		vs.Cover("refreshed")
	case cid != owner:
		vs.Cover("foreign")
	default:
		vs.Cover("unknown")
	}
	vs.Assert(err == nil || stub.NoTokens(res), "refused refresh gave a token")
}
