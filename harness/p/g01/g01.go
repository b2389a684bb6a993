// Package g01: signed tokens verify only under an eligible key of the configured set.
package g01

import (
	"context"
	"errors"

	"github.com/go-jose/go-jose/v4"
	josejwt "github.com/go-jose/go-jose/v4/jwt"

	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/vs"
)

var algs = []jose.SignatureAlgorithm{jose.ES256, jose.ES384}

type claims struct {
	Sub string `json:"sub"`
	Exp uint64 `json:"exp"`
}

type world struct {
	tok     string
	alg     string
	kid     string
	signer  int
	bad     bool
	sub     string
	exp     uint64
	slots   []slot
	allowed []jose.SignatureAlgorithm
}
type slot struct {
	key      int
	kid, use string
}

func kidOf(label string) string { return vs.StrIn(label, 0, 2, "aAk") }

// setup makes a token of arbitrary header and signer, and a key set of n keys.
func setup(n int, pool int) *world {
	w := &world{}
	w.signer = 2 * vs.Choose("signer", pool)
	w.alg = vs.Pick("alg", "ES256", "ES384", "ES512", "none", "HS256", "")
	w.kid = kidOf("kid")
	w.bad = vs.Choose("spoiled", 2) == 1
	w.sub = vs.StrIn("sub", 0, 3, "abc")
	w.exp = vs.Uint64("exp")
	switch vs.Choose("allowed", 3) {
	case 0:
		w.allowed = algs
	case 1:
		w.allowed = algs[:1]
	default:
		w.allowed = algs[1:]
	}
	for i := 0; i < n; i++ {
		w.slots = append(w.slots, slot{2 * vs.Choose("slot key", pool), kidOf("slot kid"), vs.Pick("slot use", "", "sig", "enc")})
	}
	h := map[string]any{"alg": w.alg, "typ": "at+jwt"}
	if vs.Choose("has kid", 2) == 1 {
		h["kid"] = w.kid
	} else {
		vs.Assume(w.kid == "")
	}
	c := map[string]any{"sub": w.sub, "exp": w.exp}
	if w.bad {
		w.tok = jt.Forge(h, c, w.signer)
	} else {
		w.tok = jt.Sign(h, c, w.signer)
	}
	return w
}

func (w *world) set() *jose.JSONWebKeySet {
	s := &jose.JSONWebKeySet{}
	for _, x := range w.slots {
		s.Keys = append(s.Keys, jt.JWK(x.key, x.kid, x.use))
	}
	return s
}

func (w *world) algOK() bool {
	r := false
	for _, a := range w.allowed {
		r = vs.Or(r, string(a) == w.alg)
	}
	return vs.And(r, w.alg == jt.Alg(w.signer))
}

// eligible tells that some key of the set signed the token and may verify it.
func (w *world) eligible(byKid bool) bool {
	r := false
	for _, x := range w.slots {
		if x.key != w.signer {
			continue
		}
		ok := x.use != "enc"
		if byKid {
			ok = vs.And(ok, vs.Or(w.kid == "", w.kid == x.kid))
		}
		r = vs.Or(r, ok)
	}
	return vs.And(r, w.algOK(), !w.bad)
}

func judge(w *world, err error, out claims, ok bool) {
	if err != nil {
		vs.Cover("refused")
		vs.Assert(vs.And(out.Sub == "", out.Exp == 0), "claims released with an error")
		vs.Assert(!ok, "token signed by an eligible key refused")
		return
	}
	vs.Cover("accepted")
	vs.Assert(ok, "claims released without an eligible key")
	vs.Assert(vs.And(out.Sub == w.sub, out.Exp == w.exp), "claims released differ from the signed ones")
}

// The configured key set decides.
//
//gosym:bounds key sets of 0 to 2 keys (3 in the thorough check) over a P-256 and a P-384 key, key identifiers up to 2 characters of 3, uses none/sig/enc, six header algorithms, three allow-lists, genuine or spoiled signature; JSON strings ASCII
//gosym:cover accepted,refused
//gosym:weight 3
func CheckSet() {
	n := 3
	if vs.Thorough() {
		n = 4
	}
	w := setup(vs.Choose("keys", n), 2)
	v := jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return w.set(), nil }, w.allowed)
	var out claims
	err := v.Claims(context.Background(), w.tok, &out)
	judge(w, err, out, w.eligible(true))
}

// A key set that cannot be had releases nothing.
//
//gosym:bounds provider failing, without a set, with an error and a set
//gosym:cover none,failed
func CheckProvider() {
	w := setup(1, 1)
	mode := vs.Choose("mode", 3)
	v := jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) {
		switch mode {
		case 0:
			return nil, nil
		case 1:
			return nil, errors.New("unavailable")
		}
		return w.set(), errors.New("stale")
	}, w.allowed)
	var out claims
	err := v.Claims(context.Background(), w.tok, &out)
	if mode == 0 {
		vs.Cover("none")
	} else {
		vs.Cover("failed")
	}
	vs.Assert(err != nil, "claims released without a key set")
	vs.Assert(vs.And(out.Sub == "", out.Exp == 0), "claims released with an error")
}

// The key set of a second verification is the current one.
//
//gosym:bounds two verifications of one token by one verifier, the key set replaced in between
//gosym:cover accepted,refused,revoked
func CheckRotation() {
	w := setup(1, 2)
	cur := w.set()
	v := jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return cur, nil }, w.allowed)
	var first claims
	err1 := v.Claims(context.Background(), w.tok, &first)
	w.slots = []slot{{2 * vs.Choose("new key", 2), kidOf("new kid"), vs.Pick("new use", "", "sig", "enc")}}
	cur = w.set()
	var out claims
	err := v.Claims(context.Background(), w.tok, &out)
	if err1 == nil && err != nil {
		vs.Cover("revoked")
	}
	judge(w, err, out, w.eligible(true))
}

// The helpers of package jwk apply the same rules without key identifiers.
//
//gosym:bounds as CheckSet, with at most 2 keys; a missing set or object is refused
//gosym:cover accepted,refused,nothing
//gosym:weight 2
func CheckHelpers() {
	w := setup(vs.Choose("keys", 3), 2)
	t, err := josejwt.ParseSigned(w.tok, w.allowed)
	if err != nil {
		vs.Stop()
	}
	if vs.Choose("missing", 2) == 1 {
		vs.Cover("nothing")
		var out claims
		vs.Assert(jwk.ValidateToken(nil, t, &out) != nil, "token validated without a key set")
		vs.Assert(jwk.ValidateToken(w.set(), nil, &out) != nil, "nil token validated")
		vs.Assert(jwk.ValidateSignature(nil, &jose.JSONWebSignature{}) != nil, "signature validated without a key set")
		vs.Assert(jwk.ValidateSignature(w.set(), nil) != nil, "nil signature validated")
		return
	}
	if vs.Choose("helper", 2) == 0 {
		var out claims
		err = jwk.ValidateToken(w.set(), t, &out)
		judge(w, err, out, w.eligible(false))
		return
	}
	s, err := jose.ParseSigned(w.tok, w.allowed)
	vs.Assert(err == nil, "parsers disagree")
	err = jwk.ValidateSignature(w.set(), s)
	vs.Assert((err == nil) == w.eligible(false), "signature validation differs from the eligible keys")
}

// A self-contained token verifies only under the key it embeds.
//
//gosym:bounds embedded key absent or one of two, private or symmetric, any header algorithm, genuine or spoiled signature
//gosym:cover accepted,refused,absent
//gosym:weight 2
func CheckEmbedded() {
	w := &world{signer: 2 * vs.Choose("signer", 2), alg: vs.Pick("alg", "ES256", "ES384", "none", "HS256"), bad: vs.Choose("spoiled", 2) == 1}
	w.sub, w.exp, w.allowed = vs.StrIn("sub", 0, 3, "abc"), vs.Uint64("exp"), algs
	h := map[string]any{"alg": w.alg, "typ": "dpop+jwt"}
	kind, emb := vs.Choose("embedded", 4), 2*vs.Choose("which", 2)
	switch kind {
	case 0:
		h["jwk"] = jt.JWK(emb, "", "")
	case 1:
		h["jwk"] = jt.PrivJWK(emb, "", "")
	case 2:
		h["jwk"] = map[string]any{"kty": "oct", "k": "AAAA"}
	}
	c := map[string]any{"sub": w.sub, "exp": w.exp}
	if w.bad {
		w.tok = jt.Forge(h, c, w.signer)
	} else {
		w.tok = jt.Sign(h, c, w.signer)
	}
	if kind == 3 {
		vs.Cover("absent")
	}
	v := jwt.EmbeddedKeyVerifier(w.allowed)
	var out claims
	err := v.Claims(context.Background(), w.tok, &out)
	ok := vs.And(kind == 0, emb == w.signer, w.alg == jt.Alg(w.signer), !w.bad)
	judge(w, err, out, ok)
	if v.Verify(w.tok) == nil {
		vs.Assert(vs.And(kind == 0, w.alg == jt.Alg(emb)), "object without a usable embedded key passes inspection")
	}
	t, err := v.Parse(w.tok)
	if err != nil {
		vs.Assert(!ok, "acceptable object does not parse")
		return
	}
	a, err := t.Algorithm()
	vs.Assert(vs.And(err == nil, a == w.alg), "wrong algorithm reported")
	ty, err := t.Type()
	vs.Assert(vs.And(err == nil, ty == "dpop+jwt"), "wrong type reported")
	if kind != 0 {
		return
	}
	k, err := t.PublicKey()
	vs.Assert(err == nil, "embedded key not reported")
	var got claims
	if t.Claims(k, &got) == nil {
		vs.Assert(ok, "claims released without a valid signature")
	}
	th, err := t.PublicKeyThumbPrint()
	vs.Assert(vs.And(err == nil, th == jt.Thumb(emb)), "wrong key thumbprint reported")
}

// Text that is no signed object is refused.
//
//gosym:bounds a vocabulary of 12 malformed objects
//gosym:cover refused
func CheckMalformed() {
	t := vs.Pick("text", "", ".", "..", "a.b", "a.b.c", "a.b.c.d", "e30.e30.", "e30.e30.AAAA", "{}", "{\"payload\":\"\"}", "bnVsbA.e30.AAAA", "eyJhbGciOiJub25lIn0.e30.")
	set := &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{jt.JWK(0, "a", "")}}
	v := jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return set, nil }, algs)
	e := jwt.EmbeddedKeyVerifier(algs)
	var out claims
	vs.Cover("refused")
	vs.Assert(v.Claims(context.Background(), t, &out) != nil, "malformed object accepted")
	vs.Assert(e.Claims(context.Background(), t, &out) != nil, "malformed object accepted by the embedded verifier")
	vs.Assert(v.Verify(t) != nil, "malformed object passes inspection")
	vs.Assert(e.Verify(t) != nil, "malformed object passes the embedded inspection")
	_, err := v.Parse(t)
	vs.Assert(err != nil, "malformed object parses")
	_, err = e.Parse(t)
	vs.Assert(err != nil, "malformed object parses as embedded")
}
