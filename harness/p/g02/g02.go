// Package g02: signed objects declare the media type their consumer requires.
package g02

import (
	"context"
	"errors"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/vs"
)

var bg = context.Background()

type kind struct {
	typ  string
	make func(jose.SignatureAlgorithm, jwk.KeyProviderFunc) token.Serializer
}

var kinds = []kind{
	{"at+jwt", jwt.AccessTokenSigner},
	{"rt+jwt", jwt.RefreshTokenSigner},
	{jwsreq.HeaderType, jwt.RequestSigner},
	{jarm.HeaderType, jwt.JARMSigner},
	{dpop.HeaderType, jwt.DPoPSigner},
	{"client-assertion+jwt", jwt.ClientAssertionSigner},
	{"token-introspection+jwt", jwt.TokenIntrospection},
	{"oauth-authorization-server+jwt", jwt.ServerMetadata},
}

func given(k *jose.JSONWebKey, err error) jwk.KeyProviderFunc {
	return func(context.Context) (*jose.JSONWebKey, error) { return k, err }
}

// A signed object declares type, key and algorithm and carries exactly its claims.
//
//gosym:bounds 8 object kinds, 2 keys, key identifiers up to 3 printable characters, 2 claims with printable contents up to 3 characters and every 48-bit number
//gosym:cover plain,embedded
//gosym:weight 2
func CheckHeader() {
	k := 2 * vs.Choose("key", 2)
	t := kinds[vs.Choose("kind", len(kinds))]
	kid := vs.StrIn("kid", 1, 3, jt.Printable)
	key := jt.PrivJWK(k, kid, []string{"", "sig"}[vs.Choose("use", 2)])
	sub, exp := vs.StrIn("sub", 0, 3, jt.Printable), uint64(vs.Int64Range("exp", 0, 1<<48))
	alg := jose.SignatureAlgorithm(jt.Alg(k))
	s := t.make(alg, given(&key, nil))
	tok, err := s.Serialize(bg, map[string]any{"sub": sub, "exp": exp})
	vs.Assert(err == nil, "object not signed with a fitting key")
	vs.Assert(s.ContentType() == "JWT", "content type of another serialisation")
	h, _, ok := jt.Parts(tok)
	vs.Assert(ok, "not a compact object")
	typ, _ := h["typ"].(string)
	ha, _ := h["alg"].(string)
	vs.Assert(typ == t.typ, "object of another type than its consumer requires")
	vs.Assert(ha == jt.Alg(k), "object with another algorithm than asked for")
	algs := []jose.SignatureAlgorithm{jose.ES256, jose.ES384}
	var c struct {
		Sub string `json:"sub"`
		Exp uint64 `json:"exp"`
	}
	if t.typ == dpop.HeaderType {
		vs.Cover("embedded")
		emb, _ := h["jwk"].(map[string]any)
		vs.Assert(emb != nil, "proof without its key")
		vs.Assert(emb["d"] == nil, "private key published in the header")
		v := jwt.EmbeddedKeyVerifier(algs)
		p, err := v.Parse(tok)
		vs.Assert(err == nil, "object refused by its consumer's verifier")
		th, err := p.PublicKeyThumbPrint()
		vs.Assert(vs.And(err == nil, th == jt.Thumb(k)), "proof with another key than the one it is signed with")
		ty, err := p.Type()
		vs.Assert(vs.And(err == nil, ty == dpop.HeaderType), "type unreadable for the consumer")
		vs.Assert(v.Claims(bg, tok, &c) == nil, "claims refused by the consumer's verifier")
	} else {
		vs.Cover("plain")
		hk, _ := h["kid"].(string)
		vs.Assert(hk == kid, "object without the identifier of its key")
		vs.Assert(h["jwk"] == nil, "key embedded in the header")
		set := &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{jt.JWK(3, "~~~~", ""), jt.JWK(k, kid, "")}}
		v := jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return set, nil }, algs)
		p, err := v.Parse(tok)
		vs.Assert(err == nil, "object refused by its consumer's verifier")
		ty, err := p.Type()
		vs.Assert(vs.And(err == nil, ty == t.typ), "type unreadable for the consumer")
		id, err := p.KeyID()
		vs.Assert(vs.And(err == nil, id == kid), "key identifier unreadable for the consumer")
		al, err := p.Algorithm()
		vs.Assert(vs.And(err == nil, al == jt.Alg(k)), "algorithm unreadable for the consumer")
		vs.Assert(v.Claims(bg, tok, &c) == nil, "claims refused by the consumer's verifier")
	}
	vs.Assert(vs.And(c.Sub == sub, c.Exp == exp), "claims altered by signing")
}

// Every object the library signs is accepted for what it is by its own consumer and for nothing else.
//
//gosym:bounds 8 object kinds against the consumers of authorization responses and proofs, both keys
//gosym:cover own,foreign
func CheckConsumers() {
	vs.SetNow(1700000000)
	k := 2 * vs.Choose("key", 2)
	t := kinds[vs.Choose("kind", len(kinds))]
	key := jt.PrivJWK(k, "k", "")
	tok, err := t.make(jose.SignatureAlgorithm(jt.Alg(k)), given(&key, nil)).Serialize(bg, map[string]any{
		"iss": "https://as.example", "aud": "aa", "code": "c", "state": "s", "exp": 1700000100,
		"jti": "0123456789abcdef", "htm": "POST", "htu": "https://rs.example/items", "iat": 1700000000})
	vs.Assert(err == nil, "object not signed with a fitting key")
	algs := []jose.SignatureAlgorithm{jose.ES256, jose.ES384}
	set := &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{jt.JWK(k, "k", "")}}
	_, err = jarm.Decoder("https://as.example", jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return set, nil }, algs)).Decode(bg, "aa", tok)
	vs.Assert((err == nil) == (t.typ == jarm.HeaderType), "authorization response refused, or another object accepted as one")
	_, err2 := dpop.DefaultVerifier(noProofs{}, jwt.EmbeddedKeyVerifier(algs)).Verify(bg, "POST", "https://rs.example/items", tok)
	vs.Assert((err2 == nil) == (t.typ == dpop.HeaderType), "proof refused, or another object accepted as one")
	if err == nil || err2 == nil {
		vs.Cover("own")
	} else {
		vs.Cover("foreign")
	}
}

type noProofs struct{}

func (noProofs) Register(context.Context, string) error       { return nil }
func (noProofs) Delete(context.Context, string) error         { return nil }
func (noProofs) Exists(context.Context, string) (bool, error) { return false, nil }

// Without a usable key there is no object.
//
//gosym:bounds 8 object kinds with absent provider and key, failing provider, unnamed, public, symmetric, empty and misfitting keys, unsupported algorithms, claims that cannot be encoded
//gosym:cover refused
func CheckKey() {
	t := kinds[vs.Choose("kind", len(kinds))]
	key := jt.PrivJWK(0, "k", "")
	p := given(&key, nil)
	alg := jose.ES256
	var claims any = map[string]any{"sub": "x"}
	switch vs.Choose("defect", 13) {
	case 0:
		p = nil
	case 1:
		p = given(nil, nil)
	case 2:
		p = given(&key, errors.New("none"))
	case 3:
		key.KeyID = ""
	case 4:
		key = jt.JWK(0, "k", "")
	case 5:
		key = jose.JSONWebKey{Key: []byte("0123456789abcdef0123456789abcdef"), KeyID: "k"}
	case 6:
		key = jose.JSONWebKey{KeyID: "k"}
	case 7:
		alg = jose.ES384
	case 8:
		alg = "none"
	case 9:
		alg = jose.HS256
	case 10:
		alg = ""
	case 11:
		claims = map[string]any{"f": func() {}}
	case 12:
		key = jt.PrivJWK(2, "k", "")
	}
	tok, err := t.make(alg, p).Serialize(bg, claims)
	vs.Assert(vs.And(err != nil, tok == ""), "object without a usable key or content")
	vs.Cover("refused")
}
