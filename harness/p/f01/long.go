package f01

import (
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long client identifiers that differ in one character are different clients.
//
//gosym:bounds two registered clients, issuer and subject of 601 or 5001 characters that differ in at most one, long audience and identifier, either client's key
//gosym:cover accepted,refused
func CheckLong() {
	vs.SetNow(1700000000)
	sh := vs.Choose("shape", stub.Shapes)
	ids := []string{stub.LongAs(sh, "client", "one"), stub.LongAs(sh, "client", "two")}
	vs.Assume(ids[0] != ids[1])
	cs := &stub.Clients{L: &stub.Log{}, List: []*clientv1.Client{
		{ClientId: ids[0], Jwks: jt.JWKS(jt.JWK(0, "k", ""))},
		{ClientId: ids[1], Jwks: jt.JWKS(jt.JWK(1, "k", ""))},
	}}
	iss, sub := stub.LongAs(sh, "client", "iss"), stub.LongAs(sh, "client", "sub")
	signer := vs.Choose("signer", 2)
	tok := jt.Sign(map[string]any{"alg": "ES256", "kid": "k"}, map[string]any{"iss": iss, "sub": sub, "aud": stub.Long(sh, "aud"), "jti": stub.Long(sh, "jti"), "exp": 1700000060, "iat": 1700000000}, signer)
	typ := oidc.AssertionTypeJWTBearer
	res, err := authenticate(cs, &typ, &tok)
	good := vs.And(iss == ids[signer], sub == iss)
	if !outcome(res, err) {
		vs.Assert(!good, "genuine assertion refused")
		vs.Cover("refused")
		return
	}
	vs.Assert(good && res.Client.ClientId == iss, "assertion accepted that is not the client's own")
	vs.Cover("accepted")
}
