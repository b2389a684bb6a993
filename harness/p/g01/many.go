package g01

import (
	"context"
	"strconv"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/vs"
)

// In a large set every key counts, under its whole identifier.
//
//gosym:bounds sets of 30 keys with identifiers of 3 to 603 characters, the signer's key first, in the middle or last, under an identifier that differs from the token's in at most one character, or for encryption; claims of 601 characters
//gosym:cover verified,refused
func CheckMany() {
	at := []int{0, 15, 29}[vs.Choose("position", 3)]
	pre, suf := "", ""
	switch vs.Choose("shape", 3) {
	case 1:
		for i := 0; i < 300; i++ {
			pre += "k-"
		}
	case 2:
		for i := 0; i < 300; i++ {
			suf += "k-"
		}
	}
	kid, reg := pre+vs.StrIn("kid", 1, 1, "aAb~")+suf, pre+vs.StrIn("registered", 1, 1, "aAb~")+suf
	use := vs.Pick("use", "", "sig", "enc")
	set := &jose.JSONWebKeySet{}
	for i := 0; i < 30; i++ {
		if i == at {
			set.Keys = append(set.Keys, jt.JWK(0, reg, use))
		} else {
			set.Keys = append(set.Keys, jt.JWK(1+i%3, "x"+strconv.Itoa(i), ""))
		}
	}
	sub := pre + vs.StrIn("sub", 1, 1, "aAb~") + suf
	tok := jt.Sign(map[string]any{"alg": "ES256", "kid": kid}, map[string]any{"sub": sub, "exp": 5}, 0)
	var out claims
	err := jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return set, nil }, algs).Claims(context.Background(), tok, &out)
	vs.Assert((err == nil) == vs.And(kid == reg, use != "enc"), "token verified under another key, or genuine token refused")
	if err != nil {
		vs.Cover("refused")
		return
	}
	vs.Assert(vs.And(out.Sub == sub, out.Exp == 5), "claims altered by verification")
	vs.Cover("verified")
}
