// Package e01: a DPoP proof is accepted only if fresh, self-signed and for this request.
package e01

import (
	"context"
	"crypto/sha256"
	"encoding/base64"
	"errors"
	"strings"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/vs"
)

var algs = []jose.SignatureAlgorithm{jose.ES256, jose.ES384}

// proofs is a proof store with arbitrary answers.
type proofs struct {
	used       bool
	existsErr  bool
	regErr     bool
	registered []string
	asked      []string
}

func (p *proofs) Register(_ context.Context, id string) error {
	if p.regErr {
		return errors.New("register")
	}
	p.registered = append(p.registered, id)
	return nil
}
func (p *proofs) Delete(context.Context, string) error { return nil }
func (p *proofs) Exists(_ context.Context, id string) (bool, error) {
	p.asked = append(p.asked, id)
	if p.existsErr {
		return false, errors.New("exists")
	}
	return p.used, nil
}

func ath(t string) string {
	h := sha256.Sum256([]byte(t))
	return base64.RawURLEncoding.EncodeToString(h[:])
}

const url0, method0 = "https://rs.example/items", "POST"

func now() int64 {
	n := vs.Int64Range("now", 1000, 1<<40)
	vs.SetNow(n)
	return n
}

// The header and the signature of the proof decide.
//
//gosym:bounds 6 types, 6 algorithms, embedded key absent, public, private or symmetric, one of 2 keys, signed by either, genuine or spoiled; claims fit the request
//gosym:cover accepted,refused
//gosym:weight 2
func CheckHeader() {
	n := now()
	st := &proofs{}
	v := dpop.DefaultVerifier(st, jwt.EmbeddedKeyVerifier(algs))
	signer := 2 * vs.Choose("signer", 2)
	alg := vs.Pick("alg", "ES256", "ES384", "ES512", "none", "HS256", "")
	typ := vs.Pick("typ", "dpop+jwt", "at+jwt", "DPOP+JWT", "dpop", "jwt", "")
	kind, emb := vs.Choose("embedded", 4), 2*vs.Choose("which", 2)
	h := map[string]any{"alg": alg}
	if vs.Choose("has typ", 2) == 1 {
		h["typ"] = typ
	} else {
		vs.Assume(typ == "")
	}
	switch kind {
	case 0:
		h["jwk"] = jt.JWK(emb, vs.Pick("kid", "", "other"), "")
	case 1:
		h["jwk"] = jt.PrivJWK(emb, "", "")
	case 2:
		h["jwk"] = map[string]any{"kty": "oct", "k": "AAAA"}
	}
	c := map[string]any{"jti": "0123456789abcdef", "htm": method0, "htu": url0, "iat": uint64(n)}
	bad := vs.Choose("spoiled", 2) == 1
	var tok string
	if bad {
		tok = jt.Forge(h, c, signer)
	} else {
		tok = jt.Sign(h, c, signer)
	}
	thumb, err := v.Verify(context.Background(), method0, url0, tok)
	ok := vs.And(kind == 0, emb == signer, !bad, typ == "dpop+jwt", alg == jt.Alg(signer))
	if err != nil {
		vs.Cover("refused")
		vs.Assert(!ok, "genuine proof refused")
		vs.Assert(thumb == "", "key returned with an error")
		return
	}
	vs.Cover("accepted")
	vs.Assert(ok, "proof accepted without a genuine header and signature")
	vs.Assert(thumb == jt.Thumb(signer), "wrong key returned")
	vs.Assert(len(st.registered) == 1, "accepted proof not remembered")
}

var urls = [][2]string{
	{"https://rs.example/items", "https://rs.example/items"},
	{"https://rs.example/items?q=1", "https://rs.example/items"},
	{"https://rs.example/items#frag", "https://rs.example/items"},
	{"https://rs.example/it%2Fems?q#f", "https://rs.example/it%2Fems"},
	{"http://rs.example:8080/items/", "http://rs.example:8080/items/"},
	{"https://rs.example", "https://rs.example"},
}

// The claims of the proof fit the request, are fresh and unused.
//
//gosym:bounds 6 request URLs and 5 methods against arbitrary printable claims (method up to 5, URL up to 31, identifier up to 2 characters), every 64-bit issue time and every 40-bit instant, any answer of the proof store
//gosym:cover accepted,refused,stale,future,replay
//gosym:weight 4
func CheckClaims() {
	n := now()
	st := &proofs{used: vs.Bool("used"), existsErr: vs.Bool("exists fails"), regErr: vs.Bool("register fails")}
	v := dpop.DefaultVerifier(st, jwt.EmbeddedKeyVerifier(algs))
	jti := vs.StrIn("jti", 0, 2, jt.Printable)
	htm := vs.StrIn("htm", 0, 5, jt.Printable)
	htu := vs.StrIn("htu", 0, 31, jt.Printable)
	iat := vs.Uint64("iat")
	tok := jt.Sign(map[string]any{"alg": "ES256", "typ": "dpop+jwt", "jwk": jt.JWK(0, "", "")},
		map[string]any{"jti": jti, "htm": htm, "htu": htu, "iat": iat}, 0)
	m := []string{"POST", "GET", "get", "PATCH", "BREW"}[vs.Choose("method", 5)]
	u := urls[vs.Choose("url", len(urls))]
	thumb, err := v.Verify(context.Background(), m, u[0], tok)
	fresh := vs.And(iat+15 >= uint64(n), iat <= uint64(n)+15, iat < 1<<60)
	ok := vs.And(jti != "", htm == m, htu == u[1], fresh, m != "BREW")
	if err != nil {
		vs.Cover("refused")
		vs.Assert(thumb == "", "key returned with an error")
		vs.Assert(vs.Or(!ok, st.used, st.existsErr, st.regErr), "fitting proof refused")
		if len(st.registered) == 0 && iat < 1<<60 {
			if vs.And(iat+15 < uint64(n), htm == m, htu == u[1]) {
				vs.Cover("stale")
			}
			if vs.And(iat > uint64(n)+15, htm == m, htu == u[1]) {
				vs.Cover("future")
			}
			if vs.And(ok, st.used) {
				vs.Cover("replay")
			}
		}
		return
	}
	vs.Cover("accepted")
	vs.Assert(jti != "", "proof without identifier accepted")
	vs.Assert(htm == m, "proof for another method accepted")
	vs.Assert(htu == u[1], "proof for another URI accepted")
	vs.Assert(iat+15 >= uint64(n), "stale proof accepted")
	vs.Assert(vs.And(iat <= uint64(n)+15, iat < 1<<60), "proof from the future accepted")
	vs.Assert(m != "BREW", "unknown method accepted")
	vs.Assert(!st.used, "used proof accepted")
	vs.Assert(vs.And(!st.existsErr, !st.regErr), "proof accepted though the proof store failed")
	vs.Assert(vs.And(len(st.registered) == 1, len(st.asked) == 1), "accepted proof not remembered")
	vs.Assert(thumb == jt.Thumb(0), "wrong key returned")
}

// Distinct identifiers are remembered apart.
//
//gosym:bounds two proofs with identifiers up to 3 printable characters, or one before or behind 15, 16, 31, 64 or 300 common ones
//gosym:cover same,different
func CheckIdentifier() {
	n := now()
	st := &proofs{}
	v := dpop.DefaultVerifier(st, jwt.EmbeddedKeyVerifier(algs))
	var j [2]string
	pad := strings.Repeat("a", []int{0, 15, 16, 31, 64, 300}[vs.Choose("pad", 6)])
	front := vs.Choose("front", 2) == 0
	for i := range j {
		switch {
		case pad == "":
			j[i] = vs.StrIn("jti", 1, 3, jt.Printable)
		case front:
			j[i] = pad + vs.StrIn("jti", 1, 1, jt.Printable)
		default:
			j[i] = vs.StrIn("jti", 1, 1, jt.Printable) + pad
		}
		tok := jt.Sign(map[string]any{"alg": "ES256", "typ": "dpop+jwt", "jwk": jt.JWK(0, "", "")},
			map[string]any{"jti": j[i], "htm": method0, "htu": url0, "iat": uint64(n)}, 0)
		_, err := v.Verify(context.Background(), method0, url0, tok)
		vs.Assert(err == nil, "fitting proof refused")
	}
	vs.Assert((st.registered[0] == st.registered[1]) == (j[0] == j[1]), "identifiers remembered as one, or one as two")
	if j[0] == j[1] {
		vs.Cover("same")
	} else {
		vs.Cover("different")
	}
}

// The access token and the key binding fit the proof.
//
//gosym:bounds access tokens up to 4 bytes, hash claim absent, arbitrary (43 characters) or of either token, binding absent, to either key or arbitrary
//gosym:cover accepted,unbound,othertoken,otherkey
//gosym:weight 2
func CheckBinding() {
	n := now()
	v := dpop.DefaultVerifier(&proofs{}, jwt.EmbeddedKeyVerifier(algs))
	key := 2 * vs.Choose("key", 2)
	mine, other := vs.Str("token", 4), vs.Str("other token", 4)
	c := map[string]any{"jti": "0123456789abcdef", "htm": method0, "htu": url0, "iat": uint64(n)}
	claim, has := "", true
	switch vs.Choose("hash claim", 5) {
	case 0:
		has = false
	case 1:
		claim = ath(mine)
	case 2:
		claim = ath(other)
	case 3:
		claim = vs.StrIn("claim", 0, 44, jt.Printable)
	case 4:
		has = false
		c["ath"] = nil
	}
	if has {
		c["ath"] = claim
	}
	tok := jt.Sign(map[string]any{"alg": jt.Alg(key), "typ": "dpop+jwt", "jwk": jt.JWK(key, "", "")}, c, key)
	var opts []dpop.Option
	given := vs.Choose("token given", 2) == 1
	if given {
		opts = append(opts, dpop.WithTokenValue(mine))
	}
	bound, cnf := true, ""
	switch vs.Choose("binding", 4) {
	case 0:
		bound = false
	case 1:
		cnf = jt.Thumb(0)
	case 2:
		cnf = jt.Thumb(2)
	case 3:
		cnf = vs.StrIn("cnf", 0, 44, jt.Printable)
	}
	if bound {
		opts = append(opts, dpop.WithTokenConfirmation(cnf))
	}
	thumb, err := v.Verify(context.Background(), method0, url0, tok, opts...)
	tokOK := vs.Or(!given, vs.And(has, claim == ath(mine)))
	keyOK := vs.Or(!bound, cnf == jt.Thumb(key))
	if err != nil {
		vs.Assert(vs.Or(!tokOK, !keyOK), "fitting proof refused")
		vs.Assert(thumb == "", "key returned with an error")
		if vs.And(!has, keyOK) {
			vs.Cover("unbound")
		}
		if vs.And(has, !tokOK, keyOK) {
			vs.Cover("othertoken")
		}
		if vs.And(tokOK, !keyOK) {
			vs.Cover("otherkey")
		}
		return
	}
	vs.Cover("accepted")
	vs.Assert(tokOK, "proof for another access token accepted")
	vs.Assert(keyOK, "proof by another key accepted")
	vs.Assert(thumb == jt.Thumb(key), "wrong key returned")
}

// Ill-formed requests, proofs and claims are refused.
//
//gosym:bounds 18 malformed claim sets, 8 malformed objects, 6 malformed request URLs, empty arguments
//gosym:cover claims,text,url,empty
func CheckMalformed() {
	n := now()
	v := dpop.DefaultVerifier(&proofs{}, jwt.EmbeddedKeyVerifier(algs))
	hdr := map[string]any{"alg": "ES256", "typ": "dpop+jwt", "jwk": jt.JWK(0, "", "")}
	good := map[string]any{"jti": "0123456789abcdef", "htm": method0, "htu": url0, "iat": uint64(n)}
	m, u := method0, url0
	tok := ""
	switch vs.Choose("what", 4) {
	case 0:
		vs.Cover("claims")
		vs.SetNow(1700000000)
		base := func(jti, htm, htu, iat string) string {
			return `{` + jti + htm + htu + iat + `"x":1}`
		}
		j, hm, hu, ia := `"jti":"0123456789abcdef",`, `"htm":"POST",`, `"htu":"https://rs.example/items",`, `"iat":1700000000,`
		docs := []string{
			``, `null`, `[]`, `{}`, `"x"`, `1`,
			base("", hm, hu, ia), base(j, "", hu, ia), base(j, hm, "", ia), base(j, hm, hu, ""),
			base(`"jti":null,`, hm, hu, ia), base(`"jti":1,`, hm, hu, ia), base(j, `"htm":["POST"],`, hu, ia), base(j, hm, `"htu":null,`, ia),
			base(j, hm, hu, `"iat":"1700000000",`), base(j, hm, hu, `"iat":-1,`), base(j, hm, hu, `"iat":null,`), base(j, hm, hu, `"iat":1e30,`),
		}
		tok = jt.Raw(jt.JSON(hdr), []byte(docs[vs.Choose("doc", len(docs))]), 0, false)
	case 1:
		vs.Cover("text")
		tok = []string{".", "..", "a.b.c", "e30.e30.", "e30.e30.AAAA", "{}", "bnVsbA.e30.AAAA", "eyJhbGciOiJub25lIn0.e30."}[vs.Choose("text", 8)]
	case 2:
		vs.Cover("url")
		tok = jt.Sign(hdr, good, 0)
		u = []string{"", "items", "://", "https://rs.example/%zz", "?", "https://rs ex/"}[vs.Choose("url", 6)]
	case 3:
		vs.Cover("empty")
		if vs.Choose("which", 2) == 0 {
			m, tok = "", jt.Sign(hdr, good, 0)
		}
	}
	thumb, err := v.Verify(context.Background(), m, u, tok)
	vs.Assert(err != nil, "ill-formed proof or request accepted")
	vs.Assert(thumb == "", "key returned with an error")
}
