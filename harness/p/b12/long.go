package b12

import (
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long values that differ in one character do not match.
//
//gosym:bounds client, token owner, stored and presented value of 601 or 5001 characters that differ in at most one, long identifiers
//gosym:cover revoked,foreign,unknown
func CheckLong() {
	now := stub.Now("now")
	sh := vs.Choose("shape", stub.Shapes)
	cid, owner := stub.Long(sh, "client"), stub.LongAs(sh, "client", "owner")
	t := stub.NewTok(false, stub.AllGrants(cid))
	t.Fill(owner, "openid", now)
	t.Tokens.Value, t.Tokens.T.TokenId = stub.Long(sh, "value"), stub.Long(sh, "id")
	asked := stub.LongAs(sh, "value", "asked")
	_, err := t.Svc.Revoke(stub.Ctx(), &tokenv1.RevokeRequest{Issuer: stub.Issuer, Client: &clientv1.Client{ClientId: cid}, Token: asked})
	known := asked == t.Tokens.Value
	vs.Assert((t.L.Tried("tokens.Revoke") > 0) == vs.And(cid == owner, known), "foreign token revoked, or own one not")
	if e := t.L.Get("tokens.Revoke"); e != nil {
		vs.Assert(err == nil && e.Key == t.Tokens.T.TokenId && e.Issuer == stub.Issuer, "another token revoked")
		vs.Cover("revoked")
	} else if known {
		vs.Assert(err != nil, "foreign token reported as revoked")
		vs.Cover("foreign")
	} else {
		vs.Cover("unknown")
	}
}
