package f02

import (
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long client and issuer identifiers that differ in one character are different ones.
//
//gosym:bounds registered client and attester, attested issuer and subject, issuer of the proof of 601 or 5001 characters that differ in at most one; long audience and identifier
//gosym:cover accepted,refused
func CheckLong() {
	vs.SetNow(1700000000)
	sh := vs.Choose("shape", stub.Shapes)
	attester, client := stub.Long(sh, "attester"), stub.Long(sh, "client")
	cs := &stub.Clients{L: &stub.Log{}, List: []*clientv1.Client{
		{ClientId: attester, Jwks: jt.JWKS(jt.JWK(0, "k", ""))},
		{ClientId: client, Jwks: jt.JWKS(jt.JWK(1, "k", ""))},
	}}
	iss, sub, piss := attester, client, client
	switch vs.Choose("foreign", 3) {
	case 0:
		iss = stub.LongAs(sh, "attester", "iss")
	case 1:
		sub = stub.LongAs(sh, "client", "sub")
	case 2:
		piss = stub.LongAs(sh, "client", "pop iss")
	}
	a := jt.Sign(head(0), map[string]any{"iss": iss, "sub": sub, "exp": 1700000100, "nbf": 1700000000, "cnf": map[string]any{"jwk": jt.JWK(2, "", "")}}, 0)
	p := jt.Sign(head(2), map[string]any{"iss": piss, "aud": stub.Long(sh, "aud"), "jti": stub.Long(sh, "jti"), "exp": 1700000100, "nbf": 1700000000}, 2)
	typ, tok := oidc.AssertionTypeJWTClientAttestation, a+"~"+p
	res, err := authenticate(cs, &typ, &tok)
	good := vs.And(iss == attester, sub == client, piss == client)
	if !outcome(res, err) {
		vs.Assert(!good, "genuine attestation refused")
		vs.Cover("refused")
		return
	}
	vs.Assert(good && res.Client.ClientId == client, "attestation of another client or issuer accepted")
	vs.Cover("accepted")
}
