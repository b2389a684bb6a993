package g02

import (
	"encoding/base64"
	"errors"

	"github.com/fxamacker/cbor/v2"
	"github.com/go-jose/go-jose/v4"
	"go.mozilla.org/cose"

	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/cwt"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/vs"
)

type ckind struct {
	typ  string
	make func(*cose.Algorithm, jwk.KeyProviderFunc) token.Serializer
}

var ckinds = []ckind{
	{"at+cwt", cwt.AccessTokenSigner},
	{"rt+cwt", cwt.RefreshTokenSigner},
	{token.TypeAuthzRequest + "+cwt", cwt.RequestSigner},
	{token.TypeAuthzResponseMode + "+cwt", cwt.JARMSigner},
	{"dpop+cwt", cwt.DPoPSigner},
	{"client-assertion+cwt", cwt.ClientAssertionSigner},
	{"token-introspection+cwt", cwt.TokenIntrospection},
}

func calg(i int) *cose.Algorithm {
	if i < 2 {
		return cose.ES256
	}
	return cose.ES384
}

// A CBOR object declares type, key and algorithm, verifies under its key and carries exactly its claims.
//
//gosym:bounds 7 object kinds in CBOR, 2 keys, key identifiers of 1 to 3 and a text of 0 to 3 bytes of any printable characters, every 48-bit number
//gosym:cover signed
//gosym:weight 2
func CheckCWT() {
	k := 2 * vs.Choose("key", 2)
	t := ckinds[vs.Choose("kind", len(ckinds))]
	nk, ns := vs.Choose("kidlen", 3)+1, vs.Choose("sublen", 4)
	kid := vs.StrIn("kid", nk, nk, jt.Printable)
	sub, exp := vs.StrIn("sub", ns, ns, jt.Printable), uint64(vs.Int64Range("exp", 0, 1<<48))
	key := jt.PrivJWK(k, kid, "")
	s := t.make(calg(k), given(&key, nil))
	tok, err := s.Serialize(bg, map[string]any{"sub": sub, "exp": exp})
	vs.Assert(err == nil, "object not signed with a fitting key")
	vs.Assert(s.ContentType() == "CWT", "content type of another serialisation")
	raw, err := base64.RawURLEncoding.DecodeString(tok)
	vs.Assert(err == nil, "object is no base64url text")
	var m cose.SignMessage
	vs.Assert(m.UnmarshalCBOR(raw) == nil, "object is no signed message")
	vs.Assert(len(m.Signatures) == 1, "object without exactly one signature")
	h := m.Signatures[0].Headers
	typ, _ := h.Protected["typ"].(string)
	vs.Assert(typ == t.typ, "object of another type than its consumer requires")
	alg, _ := h.Protected[1].(int)
	vs.Assert(alg == calg(k).Value, "object with another algorithm than asked for")
	id, _ := h.Unprotected[4].(string)
	vs.Assert(id == kid, "object without the identifier of its key")
	vs.Assert(m.Verify([]byte("solid"), []cose.Verifier{{PublicKey: jt.Pub(k), Alg: calg(k)}}) == nil, "object refused under its key")
	vs.Assert(m.Verify([]byte("solid"), []cose.Verifier{{PublicKey: jt.Pub(k + 1), Alg: calg(k)}}) != nil, "object accepted under another key")
	var c map[string]any
	vs.Assert(cbor.Unmarshal(m.Payload, &c) == nil, "claims unreadable")
	cs, _ := c["sub"].(string)
	ce, _ := c["exp"].(uint64)
	vs.Assert(vs.And(len(c) == 2, cs == sub, ce == exp), "claims altered by signing")
	vs.Cover("signed")
}

// Without a usable key there is no CBOR object.
//
//gosym:bounds 7 object kinds in CBOR with absent provider, key and algorithm, failing provider, unnamed, public, symmetric, empty and misfitting keys, unsupported algorithms, claims that are absent or cannot be encoded
//gosym:cover refused
func CheckCWTKey() {
	t := ckinds[vs.Choose("kind", len(ckinds))]
	key := jt.PrivJWK(0, "k", "")
	p := given(&key, nil)
	alg := cose.ES256
	var claims any = map[string]any{"sub": "x"}
	switch vs.Choose("defect", 14) {
	case 0:
		p = nil
	case 1:
		p = given(nil, nil)
	case 2:
		p = given(&key, errors.New("none"))
	case 3:
		key.KeyID = ""
	case 4:
		key = jt.JWK(0, "k", "")
	case 5:
		key = jose.JSONWebKey{Key: []byte("0123456789abcdef0123456789abcdef"), KeyID: "k"}
	case 6:
		key = jose.JSONWebKey{KeyID: "k"}
	case 7:
		alg = cose.ES384
	case 8:
		alg = nil
	case 9:
		alg = &cose.Algorithm{Name: "HMAC 256/256", Value: 5}
	case 10:
		alg = &cose.Algorithm{}
	case 11:
		claims = map[string]any{"f": func() {}}
	case 12:
		key = jt.PrivJWK(2, "k", "")
	case 13:
		claims = nil
	}
	tok, err := t.make(alg, p).Serialize(bg, claims)
	vs.Assert(vs.And(err != nil, tok == ""), "object without a usable key or content")
	vs.Cover("refused")
}
