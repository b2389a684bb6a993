package e01

import (
	"context"

	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long request URLs, access tokens and bindings are compared whole.
//
//gosym:bounds requested and proven URL and presented and proven access token of 601 or 5001 characters that differ in at most one, binding of the key or off by one character
//gosym:cover accepted,refused
func CheckLong() {
	vs.SetNow(1700000000)
	sh := vs.Choose("shape", stub.Shapes)
	v := dpop.DefaultVerifier(&proofs{}, jwt.EmbeddedKeyVerifier(algs))
	u, tok, cnf := "https://rs.example/"+stub.Long(sh, "url"), stub.Long(sh, "token"), jt.Thumb(0)
	htu, hashed := u, tok
	switch vs.Choose("foreign", 3) {
	case 0:
		htu = "https://rs.example/" + stub.LongAs(sh, "url", "htu")
	case 1:
		hashed = stub.LongAs(sh, "token", "hashed")
	case 2:
		i := []int{0, 20, 42}[vs.Choose("at", 3)]
		cnf = cnf[:i] + vs.StrIn("cnf", 1, 1, jt.Printable) + cnf[i+1:]
	}
	p := jt.Sign(map[string]any{"alg": "ES256", "typ": "dpop+jwt", "jwk": jt.JWK(0, "", "")},
		map[string]any{"jti": stub.Long(sh, "jti"), "htm": method0, "htu": htu, "iat": 1700000000, "ath": ath(hashed)}, 0)
	thumb, err := v.Verify(context.Background(), method0, u, p, dpop.WithTokenValue(tok), dpop.WithTokenConfirmation(cnf))
	vs.Assert((err == nil) == vs.And(htu == u, hashed == tok, cnf == jt.Thumb(0)), "proof for another request, token or key accepted, or fitting proof refused")
	if err == nil {
		vs.Assert(thumb == jt.Thumb(0), "wrong key returned")
		vs.Cover("accepted")
	} else {
		vs.Cover("refused")
	}
}
