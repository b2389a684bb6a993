// Package h07: signed authorization requests are decoded only from verified, well-formed objects.
package h07

import (
	"context"
	"errors"

	"github.com/go-jose/go-jose/v4"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

var algs = []jose.SignatureAlgorithm{jose.ES256, jose.ES384}
var bg = context.Background()

func signer(i int) token.Serializer {
	k := jt.PrivJWK(i, "k", "")
	return jwt.RequestSigner(jose.SignatureAlgorithm(jt.Alg(i)), func(context.Context) (*jose.JSONWebKey, error) { return &k, nil })
}

func verifier(use string, is ...int) token.Verifier {
	set := &jose.JSONWebKeySet{}
	for _, i := range is {
		set.Keys = append(set.Keys, jt.JWK(i, "k", use))
	}
	return jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return set, nil }, algs)
}

func text(l string) string { return vs.StrIn(l, 0, 3, jt.Printable) }

func opt(l string, on bool) *string {
	if !on {
		return nil
	}
	s := vs.StrIn(l, 0, 3, jt.Printable)
	return &s
}

// Every parameter survives encoding and decoding.
//
//gosym:bounds all 23 parameters with printable contents up to 3 characters, at most one of the mandatory ones empty, optional ones absent together, present together or singly, up to 2 resources, every 64-bit age
//gosym:cover full,bare,single
//gosym:weight 3
func CheckRoundTrip() {
	k := 2 * vs.Choose("key", 2)
	which := vs.Choose("optional", 16) // 0 none, 1 all, otherwise one
	on := func(i int) bool { return which == 1 || which == i+2 }
	empty, n := vs.Choose("empty", 10), 0
	text := func(l string) string {
		n++
		if n == empty {
			return ""
		}
		return vs.StrIn(l, 1, 3, jt.Printable)
	}
	r := &flowv1.AuthorizationRequest{
		Scope: text("scope"), ResponseType: text("response_type"), ClientId: text("client_id"), RedirectUri: text("redirect_uri"),
		State: text("state"), Nonce: text("nonce"), CodeChallenge: text("code_challenge"), CodeChallengeMethod: text("code_challenge_method"), Audience: text("audience"),
		ResponseMode: opt("response_mode", on(0)), Display: opt("display", on(1)), Prompt: opt("prompt", on(2)),
		UiLocales: opt("ui_locales", on(3)), IdTokenHint: opt("id_token_hint", on(4)), AcrValues: opt("acr_values", on(5)),
		Request: opt("request", on(6)), RequestUri: opt("request_uri", on(7)), DpopProof: opt("dpop_proof", on(8)),
		Iss: opt("iss", on(9)), LoginHintToken: opt("login_hint_token", on(10)), LoginHint: opt("login_hint", on(11)),
	}
	if on(12) {
		a := vs.Uint64("max_age")
		r.MaxAge = &a
	}
	if on(13) {
		for i := vs.Choose("resources", 3); i > 0; i-- {
			r.Resource = append(r.Resource, text("resource"))
		}
	}
	tok, err := jwsreq.AuthorizationRequestEncoder(signer(k)).Encode(bg, r)
	vs.Assert(err == nil, "request not encoded")
	_, claims, ok := jt.Parts(tok)
	vs.Assert(ok, "request object is not a signed document")
	named(r, claims)
	g, err := jwsreq.AuthorizationRequestDecoder(verifier("", k)).Decode(bg, tok)
	vs.Assert(err == nil, "genuine request object refused")
	vs.Assert(same(r, g), "request altered by encoding and decoding")
	switch which {
	case 0:
		vs.Cover("bare")
	case 1:
		vs.Cover("full")
	default:
		vs.Cover("single")
	}
}

// named checks that the object carries the parameters under their registered names.
func named(r *flowv1.AuthorizationRequest, claims map[string]any) {
	n := 0
	one := func(name, want string, on bool) {
		got, has := claims[name].(string)
		vs.Assert(has == on, "parameter "+name+" is not carried under its name")
		if has {
			n++
			vs.Assert(got == want, "parameter "+name+" altered")
		}
	}
	for name, v := range map[string]string{"scope": r.Scope, "response_type": r.ResponseType, "client_id": r.ClientId, "redirect_uri": r.RedirectUri,
		"state": r.State, "nonce": r.Nonce, "code_challenge": r.CodeChallenge, "code_challenge_method": r.CodeChallengeMethod, "audience": r.Audience} {
		one(name, v, v != "")
	}
	for name, v := range map[string]*string{"response_mode": r.ResponseMode, "display": r.Display, "prompt": r.Prompt, "ui_locales": r.UiLocales,
		"id_token_hint": r.IdTokenHint, "acr_values": r.AcrValues, "request": r.Request, "request_uri": r.RequestUri, "iss": r.Iss,
		"login_hint_token": r.LoginHintToken, "login_hint": r.LoginHint, "dpop_proof": r.DpopProof} {
		one(name, stub.Deref(v), v != nil)
	}
	if _, has := claims["max_age"]; has {
		n++
	}
	if _, has := claims["resource"]; has {
		n++
	}
	vs.Assert(n == len(claims), "a claim beyond the parameters is carried")
}

func same(a, b *flowv1.AuthorizationRequest) bool {
	if len(a.Resource) != len(b.Resource) || (a.MaxAge == nil) != (b.MaxAge == nil) {
		return false
	}
	ok := true
	for i := range a.Resource {
		ok = vs.And(ok, a.Resource[i] == b.Resource[i])
	}
	if a.MaxAge != nil {
		ok = vs.And(ok, *a.MaxAge == *b.MaxAge)
	}
	pa := []*string{a.ResponseMode, a.Display, a.Prompt, a.UiLocales, a.IdTokenHint, a.AcrValues, a.Request, a.RequestUri, a.DpopProof, a.Iss, a.LoginHintToken, a.LoginHint}
	pb := []*string{b.ResponseMode, b.Display, b.Prompt, b.UiLocales, b.IdTokenHint, b.AcrValues, b.Request, b.RequestUri, b.DpopProof, b.Iss, b.LoginHintToken, b.LoginHint}
	for i := range pa {
		if (pa[i] == nil) != (pb[i] == nil) {
			return false
		}
		ok = vs.And(ok, stub.Deref(pa[i]) == stub.Deref(pb[i]))
	}
	return vs.And(ok, a.Scope == b.Scope, a.ResponseType == b.ResponseType, a.ClientId == b.ClientId, a.RedirectUri == b.RedirectUri, a.State == b.State,
		a.Nonce == b.Nonce, a.CodeChallenge == b.CodeChallenge, a.CodeChallengeMethod == b.CodeChallengeMethod, a.Audience == b.Audience)
}

// Only objects signed by an eligible key are decoded.
//
//gosym:bounds 3 signers, 5 algorithms, 3 key identifiers, genuine or spoiled, key for signing or encryption, 2 parameters with printable contents
//gosym:cover accepted,refused
//gosym:weight 2
func CheckGenuine() {
	s := vs.Choose("signer", 3)
	alg := vs.Pick("alg", "ES256", "ES384", "none", "HS256", "")
	kid := vs.Pick("kid", "k", "other", "")
	bad := vs.Choose("spoiled", 2) == 1
	use := []string{"", "sig", "enc"}[vs.Choose("use", 3)]
	id, st := text("client_id"), text("state")
	tok := jt.Raw(jt.JSON(map[string]any{"alg": alg, "kid": kid, "typ": "oauth-authz-req+jwt"}), jt.JSON(map[string]any{"client_id": id, "state": st}), s, bad)
	g, err := jwsreq.AuthorizationRequestDecoder(verifier(use, 0)).Decode(bg, tok)
	genuine := vs.And(s == 0, alg == "ES256", kid != "other", !bad, use != "enc")
	if err != nil {
		vs.Cover("refused")
		vs.Assert(!genuine, "genuine request object refused")
		vs.Assert(g == nil, "request handed out with an error")
		return
	}
	vs.Cover("accepted")
	vs.Assert(genuine, "request object accepted that is not signed by an eligible key")
	vs.Assert(vs.And(g.ClientId == id, g.State == st, g.Scope == "", g.RedirectUri == "", g.Request == nil, len(g.Resource) == 0), "request altered by decoding")
}

// Ill-formed objects and contents are refused.
//
//gosym:bounds 22 ill-formed objects and contents
//gosym:cover refused
func CheckMalformed() {
	h := map[string]any{"alg": "ES256", "kid": "k"}
	doc := func(s string) string { return jt.Raw(jt.JSON(h), []byte(s), 0, false) }
	good := doc(`{"client_id":"a"}`)
	texts := []string{"", ".", "..", "a.b.c", "e30.e30.", "e30.e30.AAAA", good + ".", "." + good, good[:len(good)-3], "eyJhbGciOiJub25lIn0.e30.",
		doc(``), doc(`[]`), doc(`"x"`), doc(`1`), doc(`{"client_id":1}`), doc(`{"client_id":["a"]}`), doc(`{"client_id":{}}`), doc(`{"max_age":"x"}`), doc(`{"max_age":-1}`), doc(`{"max_age":1.5}`), doc(`{"resource":"a"}`), doc(`{"resource":[1]}`)}
	g, err := jwsreq.AuthorizationRequestDecoder(verifier("", 0)).Decode(bg, texts[vs.Choose("text", len(texts))])
	vs.Assert(vs.And(err != nil, g == nil), "ill-formed request object accepted")
	vs.Cover("refused")
}

// A request that cannot be signed yields no object.
//
//gosym:bounds absent request, failing, absent and unsuitable keys, failing key sets
//gosym:cover encode,decode
func CheckUnsigned() {
	r := &flowv1.AuthorizationRequest{ClientId: text("client_id")}
	key := func(k *jose.JSONWebKey, err error) token.Serializer {
		return jwt.RequestSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return k, err })
	}
	priv, pub := jt.PrivJWK(0, "k", ""), jt.JWK(0, "k", "")
	d := vs.Choose("defect", 7)
	if d >= 5 {
		vs.Cover("decode")
		tok, err := jwsreq.AuthorizationRequestEncoder(signer(0)).Encode(bg, r)
		vs.Assert(err == nil, "request not encoded")
		var set *jose.JSONWebKeySet
		var fail error
		if d == 6 {
			set, fail = &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{pub}}, errors.New("none")
		}
		g, err := jwsreq.AuthorizationRequestDecoder(jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return set, fail }, algs)).Decode(bg, tok)
		vs.Assert(vs.And(err != nil, g == nil), "request object accepted without a key set")
		return
	}
	vs.Cover("encode")
	s := signer(0)
	switch d {
	case 0:
		r = nil
	case 1:
		s = key(nil, nil)
	case 2:
		s = key(&priv, errors.New("none"))
	case 3:
		s = key(&pub, nil)
	case 4:
		priv.KeyID = ""
		s = key(&priv, nil)
	}
	tok, err := jwsreq.AuthorizationRequestEncoder(s).Encode(bg, r)
	vs.Assert(vs.And(err != nil, tok == ""), "object for a request that cannot be signed")
}
