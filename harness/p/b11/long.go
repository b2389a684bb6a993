package b11

import (
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long values are compared and answered whole.
//
//gosym:bounds known and asking client, stored and presented value of 601 or 5001 characters that differ in at most one; members of as many characters, a scope of 63 words
//gosym:cover known,unknown,stranger
func CheckLong() {
	now := stub.Now("now")
	sh := vs.Choose("shape", stub.Shapes)
	cid, caller := stub.Long(sh, "client"), stub.LongAs(sh, "client", "caller")
	t := stub.NewTok(false, stub.AllGrants(cid))
	t.Fill("o", stub.LongScope("scope", true), now)
	t.Tokens.Value = stub.Long(sh, "value")
	x := t.Tokens.T
	x.TokenId, x.Metadata.Subject, x.Metadata.Audience = stub.Long(sh, "id"), stub.Long(sh, "subject"), stub.Long(sh, "audience")
	before := vs.Snapshot(x).(*tokenv1.Token)
	asked := stub.LongAs(sh, "value", "asked")
	res, err := t.Svc.Introspect(stub.Ctx(), &tokenv1.IntrospectRequest{Issuer: stub.Issuer, Client: &clientv1.Client{ClientId: caller}, Token: asked})
	vs.Assert((err == nil) == (caller == cid), "stranger answered, or right introspection refused")
	if err != nil {
		vs.Assert(res.Token == nil, "refused introspection returned a token")
		vs.Cover("stranger")
		return
	}
	vs.Assert(res.Token != nil, "no answer")
	if res.Token == nil {
		return
	}
	if asked == t.Tokens.Value {
		vs.Assert(vs.Same(res.Token, before), "another token than the stored one")
		vs.Cover("known")
		return
	}
	vs.Assert(res.Token.Status != stub.Active && res.Token.Metadata == nil, "details of a token that is not the presented one")
	vs.Cover("unknown")
}
