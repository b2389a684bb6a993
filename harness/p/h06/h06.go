// Package h06: authorization responses survive signing and only genuine ones are decoded.
package h06

import (
	"context"
	"errors"

	"github.com/go-jose/go-jose/v4"

	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/vs"
)

var algs = []jose.SignatureAlgorithm{jose.ES256, jose.ES384}

func signer(i int) token.Serializer {
	k := jt.PrivJWK(i, "k", "")
	return jwt.JARMSigner(jose.SignatureAlgorithm(jt.Alg(i)), func(context.Context) (*jose.JSONWebKey, error) { return &k, nil })
}

func verifier(use string, is ...int) token.Verifier {
	set := &jose.JSONWebKeySet{}
	for _, i := range is {
		set.Keys = append(set.Keys, jt.JWK(i, "k", use))
	}
	return jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return set, nil }, algs)
}

var bg = context.Background()

// A response that was encoded is decoded to the same values while it is valid, for its client only.
//
//gosym:bounds printable issuer and client (up to 3), code and state (up to 4 characters), validity up to 2^32 s, every 40-bit instant and delay up to 2^33 s
//gosym:cover decoded,expired,issuer,audience
//gosym:weight 3
func CheckRoundTrip() {
	t := vs.Int64Range("t", 1000, 1<<40)
	vs.SetNow(t)
	k := 2 * vs.Choose("key", 2)
	iss, aud := vs.StrIn("issuer", 1, 3, jt.Printable), vs.StrIn("client", 1, 3, jt.Printable)
	r := &flowv1.AuthorizeResponse{ClientId: aud, Code: vs.StrIn("code", 1, 4, jt.Printable), State: vs.StrIn("state", 1, 4, jt.Printable), ExpiresIn: uint64(vs.Int64Range("validity", 1, 1<<32))}
	wantIss, wantAud := vs.StrIn("expected issuer", 1, 3, jt.Printable), vs.StrIn("expected client", 1, 3, jt.Printable)
	tok, err := jarm.Encoder(signer(k)).Encode(bg, iss, r)
	vs.Assert(err == nil, "complete response not encoded")
	delay := vs.Int64Range("delay", 0, 1<<33)
	vs.SetNow(t + delay)
	got, err := jarm.Decoder(wantIss, verifier("", k)).Decode(bg, wantAud, tok)
	live := uint64(delay) <= r.ExpiresIn
	if err != nil {
		vs.Assert(vs.Or(iss != wantIss, aud != wantAud, !live), "genuine response refused")
		vs.Assert(got == nil || vs.And(got.Code == "", got.State == ""), "content of a refused response handed out")
		if !live {
			vs.Cover("expired")
		}
		if iss != wantIss {
			vs.Cover("issuer")
		}
		if aud != wantAud {
			vs.Cover("audience")
		}
		return
	}
	vs.Cover("decoded")
	vs.Assert(iss == wantIss, "response of another issuer accepted")
	vs.Assert(aud == wantAud, "response for another client accepted")
	vs.Assert(live, "expired response accepted")
	vs.Assert(got.Error == nil, "error out of a success")
	vs.Assert(vs.And(got.Code == r.Code, got.State == r.State, got.Issuer == iss), "response altered by encoding and decoding")
}

// Errors keep their code, description and state.
//
//gosym:bounds printable code, description and state up to 4 characters, code and other parts of the response set or not
//gosym:cover decoded
func CheckErrors() {
	vs.SetNow(vs.Int64Range("t", 1000, 1<<40))
	e := &corev1.Error{Err: vs.StrIn("error", 1, 4, jt.Printable), ErrorDescription: vs.StrIn("description", 0, 4, jt.Printable)}
	r := &flowv1.AuthorizeResponse{Error: e, State: vs.StrIn("state", 0, 4, jt.Printable), Code: vs.StrIn("code", 0, 2, jt.Printable), ClientId: vs.StrIn("client", 0, 2, jt.Printable), ExpiresIn: vs.Uint64("validity")}
	tok, err := jarm.Encoder(signer(0)).Encode(bg, "https://as.example", r)
	vs.Assert(err == nil, "error response not encoded")
	got, err := jarm.Decoder("https://as.example", verifier("", 0)).Decode(bg, "aa", tok)
	vs.Assert(err == nil, "error response not decoded")
	vs.Assert(got.Error != nil, "error turned into a success")
	vs.Assert(vs.And(got.Error.Err == e.Err, got.Error.ErrorDescription == e.ErrorDescription, got.State == r.State), "error response altered by encoding and decoding")
	vs.Assert(got.Code == "", "code handed out with an error")
	vs.Cover("decoded")
}

// Only signed objects of the right type by a key of the issuer are decoded.
//
//gosym:bounds 7 types, 5 algorithms, 2 signers, genuine or spoiled, key reserved for encryption or not, arbitrary claims (issuer and client up to 3, code up to 2 characters, every 64-bit expiry), success or error
//gosym:cover accepted,refused,error
//gosym:weight 3
func CheckGenuine() {
	n := vs.Int64Range("now", 1000, 1<<40)
	vs.SetNow(n)
	s := vs.Choose("signer", 2)
	typ := vs.Pick("typ", "jarm+jwt", "at+jwt", "JARM+JWT", "jarm", "jwt", "oauth-authz-req+jwt", "")
	alg := vs.Pick("alg", "ES256", "ES384", "none", "HS256", "")
	bad := vs.Choose("spoiled", 2) == 1
	use := []string{"", "enc"}[vs.Choose("use", 2)]
	h := map[string]any{"alg": alg, "kid": vs.Pick("kid", "k", "other", "")}
	if vs.Choose("has typ", 2) == 1 {
		h["typ"] = typ
	} else {
		vs.Assume(typ == "")
	}
	iss, aud, code, exp := vs.StrIn("iss", 0, 3, "aAb/ "), vs.StrIn("aud", 0, 3, "aAb/ "), vs.StrIn("code", 0, 2, jt.Printable), vs.Uint64("exp")
	c := map[string]any{"iss": iss, "aud": aud, "code": code, "state": "s", "exp": exp}
	isErr := vs.Choose("error", 2) == 1
	if isErr {
		c["error"] = "access_denied"
	}
	tok := jt.Raw(jt.JSON(h), jt.JSON(c), s, bad)
	got, err := jarm.Decoder("aAb", verifier(use, 0)).Decode(bg, "bAa", tok)
	kid, _ := h["kid"].(string)
	genuine := vs.And(typ == "jarm+jwt", s == 0, alg == "ES256", !bad, use == "", kid != "other")
	fits := vs.And(iss == "aAb", aud == "bAa", exp >= uint64(n))
	if err != nil {
		vs.Cover("refused")
		// times no clock reaches are not asked to count as the future
		vs.Assert(!vs.And(genuine, vs.Or(isErr, vs.And(fits, exp < 1<<62))), "genuine response refused")
		vs.Assert(got == nil || got.Code == "", "code of a refused response handed out")
		return
	}
	vs.Assert(genuine, "response accepted that is not signed by the issuer")
	if isErr {
		vs.Cover("error")
		vs.Assert(got.Error != nil && got.Error.Err == "access_denied", "error turned into a success")
		vs.Assert(got.Code == "", "code handed out with an error")
		return
	}
	vs.Cover("accepted")
	vs.Assert(fits, "response accepted out of its validity, issuer or audience")
	vs.Assert(vs.And(got.Error == nil, got.Code == code, got.State == "s", got.Issuer == "aAb"), "response altered by decoding")
}

// Incomplete responses are not encoded, and ill-formed ones not decoded.
//
//gosym:bounds each part missing, signing failures, 16 ill-formed objects
//gosym:cover encode,decode
func CheckMalformed() {
	vs.SetNow(1700000000)
	if vs.Choose("side", 2) == 0 {
		vs.Cover("encode")
		r := &flowv1.AuthorizeResponse{ClientId: "aa", Code: "c", State: "s", ExpiresIn: 60}
		iss, s := "https://as.example", signer(0)
		switch vs.Choose("missing", 8) {
		case 0:
			r = nil
		case 1:
			iss = ""
		case 2:
			r.ClientId = ""
		case 3:
			r.Code = ""
		case 4:
			r.State = ""
		case 5:
			r.ExpiresIn = 0
		case 6:
			s = jwt.JARMSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return nil, errors.New("none") })
		case 7:
			k := jt.JWK(0, "k", "")
			s = jwt.JARMSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return &k, nil })
		}
		tok, err := jarm.Encoder(s).Encode(bg, iss, r)
		vs.Assert(vs.And(err != nil, tok == ""), "incomplete response encoded")
		return
	}
	vs.Cover("decode")
	h := map[string]any{"alg": "ES256", "typ": "jarm+jwt", "kid": "k"}
	doc := func(s string) string { return jt.Raw(jt.JSON(h), []byte(s), 0, false) }
	good := doc(`{"iss":"abc","aud":"cba","code":"c","state":"s","exp":1700000100}`)
	aud := "cba"
	texts := []string{"", ".", "..", "a.b.c", "e30.e30.", "e30.e30.AAAA", "bnVsbA.e30.AAAA", good + "x.", good[:len(good)-1] + ".",
		doc(``), doc(`null`), doc(`{}`), doc(`[]`), doc(`{"iss":"abc","aud":"cba","code":"c","state":"s","exp":1699999999}`), doc(`{"iss":"abc","aud":["cba"],"code":"c","exp":1700000100}`), doc(`{"iss":"abc","aud":"cba","code":"c","exp":-1}`)}
	i := vs.Choose("text", len(texts)+1)
	if i == len(texts) {
		aud = ""
		texts = append(texts, good)
	}
	got, err := jarm.Decoder("abc", verifier("", 0)).Decode(bg, aud, texts[i])
	vs.Assert(err != nil, "ill-formed response accepted")
	vs.Assert(got == nil || got.Code == "", "code of a refused response handed out")
}
