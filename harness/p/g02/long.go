package g02

import (
	"context"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long key identifiers and claims are carried whole.
//
//gosym:bounds 7 object kinds, key identifiers and a claim of 601 or 5001 characters, one of each chosen by the solver, 20 more claims
//gosym:cover signed
func CheckLong() {
	sh := vs.Choose("shape", stub.Shapes)
	t := kinds[vs.Choose("kind", len(kinds))]
	if t.typ == "dpop+jwt" {
		vs.Stop()
	}
	key := jt.PrivJWK(0, stub.Long(sh, "kid"), "")
	m := map[string]any{"sub": stub.Long(sh, "sub")}
	for i := 0; i < 20; i++ {
		m["claim"+string(rune('a'+i))] = i
	}
	tok, err := t.make(jose.ES256, given(&key, nil)).Serialize(bg, m)
	vs.Assert(err == nil, "object not signed with a fitting key")
	h, c, ok := jt.Parts(tok)
	vs.Assert(ok && h["typ"] == any(t.typ), "object of another type than its consumer requires")
	hk, _ := h["kid"].(string)
	sub, _ := c["sub"].(string)
	vs.Assert(vs.And(hk == key.KeyID, sub == m["sub"].(string), len(c) == 21), "identifier or claims altered by signing")
	set := &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{jt.JWK(0, key.KeyID, "")}}
	var out struct {
		Sub string `json:"sub"`
	}
	err = jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return set, nil }, []jose.SignatureAlgorithm{jose.ES256}).Claims(bg, tok, &out)
	vs.Assert(err == nil && out.Sub == sub, "claims refused by the consumer's verifier, or altered")
	vs.Cover("signed")
}
