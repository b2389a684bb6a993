// Package e03: a proof made by the client library is accepted by the server library.
package e03

import (
	"context"
	"crypto/tls"
	"errors"
	"net/http"
	"net/url"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/vs"
)

func prover(k int) dpop.Prover {
	key := jt.PrivJWK(k, "key", "")
	return dpop.DefaultProver(jwt.DPoPSigner(jose.SignatureAlgorithm(jt.Alg(k)), func(context.Context) (*jose.JSONWebKey, error) { return &key, nil }))
}

func verifier() dpop.Verifier {
	return dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier([]jose.SignatureAlgorithm{jose.ES256, jose.ES384}))
}

var methods = []string{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE", "get", "Patch"}
var bases = []string{"https://rs.example", "http://rs.example:8080", "https://RS.example"}
var paths = []string{"", "/", "/items", "/it%2Fems", "/it%2fems", "/a%20b", "/%7Euser", "/a/../b", "//a", "/a;b=1,c", "/%C3%A9", "/a:b@c"}
var tails = []string{"", "?", "?q=1&r=%20", "#frag", "?q=1#frag", "?a#b?c", "#a%zz"}

func pickURL() string {
	return bases[vs.Choose("base", len(bases))] + paths[vs.Choose("path", len(paths))] + tails[vs.Choose("tail", len(tails))]
}

// Any proof is accepted for its own request within the window.
//
//gosym:bounds 9 methods (2 of them in another case too) times 252 URLs (3 origins, 12 paths, 7 queries and fragments), every instant from 2001 to 2033 and delay of 0 to 15 s, both keys, tokens up to 4 bytes
//gosym:cover plain,token,bound
//gosym:weight 3
func CheckAccepted() {
	t := vs.Int64Range("t", 1000000000, 2000000000)
	vs.SetNow(t)
	m, u := methods[vs.Choose("method", len(methods))], "https://rs.example/items?q=1"
	k := 0
	if m == "POST" {
		u = pickURL()
	} else {
		k = 2 * vs.Choose("key", 2)
	}
	var popts, vopts []dpop.Option
	var tok string
	kind := vs.Choose("kind", 3)
	if kind > 0 {
		tok = vs.Str("token", 4)
		popts = append(popts, dpop.WithTokenValue(tok))
		vopts = append(vopts, dpop.WithTokenValue(tok))
	}
	if kind == 2 {
		vopts = append(vopts, dpop.WithTokenConfirmation(jt.Thumb(k)))
	}
	p, err := prover(k).Prove(m, u, popts...)
	vs.Assert(err == nil, "a proof could not be made")
	vs.SetNow(t + vs.Int64Range("delay", 0, 15))
	thumb, err := verifier().Verify(context.Background(), m, u, p, vopts...)
	vs.Assert(err == nil, "the library's own proof was refused")
	vs.Assert(thumb == jt.Thumb(k), "wrong key returned")
	vs.Cover([]string{"plain", "token", "bound"}[kind])
}

// The server's view of its own URL fits the client's proof.
//
//gosym:bounds the same URLs, received directly or behind a proxy that forwards the scheme
//gosym:cover direct,proxy
//gosym:weight 2
func CheckServerURL() {
	vs.SetNow(1700000000)
	raw := pickURL()
	p, err := prover(0).Prove("POST", raw)
	vs.Assert(err == nil, "a proof could not be made")
	u, err := url.Parse(raw)
	if err != nil {
		vs.Stop()
	}
	r := &http.Request{Method: "POST", Host: u.Host, URL: &url.URL{Path: u.Path, RawPath: u.RawPath, RawQuery: u.RawQuery}, Header: http.Header{}}
	if vs.Choose("proxy", 2) == 1 {
		r.Header.Set("X-Forwarded-Scheme", u.Scheme)
		vs.Cover("proxy")
	} else {
		if u.Scheme == "https" {
			r.TLS = &tls.ConnectionState{}
		}
		vs.Cover("direct")
	}
	_, err = verifier().Verify(context.Background(), "POST", dpop.CleanURL(r), p)
	vs.Assert(err == nil, "the server refuses the library's proof for the URL it was called with")
}

// Proofs of one prover are distinct: the second one is accepted too.
//
//gosym:bounds two proofs for one request within one second
//gosym:cover second
func CheckAgain() {
	vs.SetNow(1700000000)
	pr, v := prover(0), verifier()
	a, err := pr.Prove("GET", "https://rs.example/items")
	vs.Assert(err == nil, "a proof could not be made")
	b, err := pr.Prove("GET", "https://rs.example/items")
	vs.Assert(err == nil, "a proof could not be made")
	_, ca, _ := jt.Parts(a)
	_, cb, _ := jt.Parts(b)
	ja, _ := ca["jti"].(string)
	jb, _ := cb["jti"].(string)
	vs.Assert(vs.And(len(ja) == dpop.JTICodeLength, len(jb) == dpop.JTICodeLength), "identifier without the promised length")
	vs.Assume(ja != jb)
	_, err = v.Verify(context.Background(), "GET", "https://rs.example/items", a)
	vs.Assert(err == nil, "the library's own proof was refused")
	_, err = v.Verify(context.Background(), "GET", "https://rs.example/items", b)
	vs.Assert(err == nil, "a second proof was refused")
	vs.Cover("second")
}

// A proof that cannot be made is an error.
//
//gosym:bounds missing or failing signer and key, empty and malformed arguments
//gosym:cover refused
func CheckIncomplete() {
	vs.SetNow(1700000000)
	key := jt.PrivJWK(0, "key", "")
	pr := prover(0)
	m, u := "GET", "https://rs.example/items"
	provider := func(k *jose.JSONWebKey, err error) dpop.Prover {
		return dpop.DefaultProver(jwt.DPoPSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return k, err }))
	}
	switch vs.Choose("defect", 9) {
	case 0:
		m = ""
	case 1:
		u = ""
	case 2:
		m = vs.StrIn("m", 1, 4, "GETX")
		vs.Assume(vs.And(m != "GET", m != "TGET"))
	case 3:
		u = []string{"items", "://", "https://rs ex/", "https://rs.example/%zz"}[vs.Choose("bad url", 4)]
	case 4:
		pr = dpop.DefaultProver(nil)
	case 5:
		pr = provider(nil, nil)
	case 6:
		pr = provider(&key, errors.New("no key"))
	case 7:
		key.KeyID = ""
		pr = provider(&key, nil)
	case 8:
		pub := jt.JWK(0, "key", "")
		pr = provider(&pub, nil)
	}
	p, err := pr.Prove(m, u)
	vs.Assert(vs.And(err != nil, p == ""), "a proof was made from incomplete input")
	vs.Cover("refused")
}
