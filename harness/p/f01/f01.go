// Package f01: private_key_jwt authenticates a client only by a valid assertion of its own.
package f01

import (
	"github.com/go-jose/go-jose/v4"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/server/clientauthentication"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

var algs = []jose.SignatureAlgorithm{jose.ES256, jose.ES384}

func now() int64 {
	n := vs.Int64Range("now", 1000, 1<<40)
	vs.SetNow(n)
	return n
}

func authenticate(cs *stub.Clients, typ, assertion *string) (*clientv1.AuthenticateResponse, error) {
	p := clientauthentication.PrivateKeyJWT(cs, algs)
	return p.Authenticate(stub.Ctx(), &clientv1.AuthenticateRequest{ClientAssertionType: typ, ClientAssertion: assertion})
}

// outcome checks what every answer keeps and tells whether a client was authenticated.
func outcome(res *clientv1.AuthenticateResponse, err error) bool {
	vs.Assert(res != nil, "no answer")
	if err != nil {
		vs.Assert(res.Client == nil, "client handed out with an error")
		vs.Assert(res.Error != nil && res.Error.Err != "", "failure without an error code")
		return false
	}
	vs.Assert(res.Error == nil, "error code without a failure")
	vs.Assert(res.Client != nil, "success without a client")
	return true
}

// The claims of the assertion decide.
//
//gosym:bounds arbitrary printable issuer, subject (up to 3), audience and identifier (up to 2 characters), every 64-bit expiry and issue time, every 40-bit instant, any storage failure; two registered clients with a key each
//gosym:cover accepted,refused,expired,unknown,fault
//gosym:weight 2
func CheckClaims() {
	n := now()
	l := &stub.Log{MayFail: true}
	cs := &stub.Clients{L: l, List: []*clientv1.Client{
		{ClientId: "aa", Jwks: jt.JWKS(jt.JWK(0, "k", ""))},
		{ClientId: "bb", Jwks: jt.JWKS(jt.JWK(1, "k", ""))},
	}}
	iss, sub := vs.StrIn("iss", 0, 3, jt.Printable), vs.StrIn("sub", 0, 3, jt.Printable)
	aud, jti := vs.StrIn("aud", 0, 2, jt.Printable), vs.StrIn("jti", 0, 2, jt.Printable)
	exp, iat := vs.Uint64("exp"), vs.Uint64("iat")
	signer := vs.Choose("signer", 2)
	tok := jt.Sign(map[string]any{"alg": "ES256", "kid": "k"},
		map[string]any{"iss": iss, "sub": sub, "aud": aud, "jti": jti, "exp": exp, "iat": iat}, signer)
	typ := oidc.AssertionTypeJWTBearer
	res, err := authenticate(cs, &typ, &tok)
	owner := []string{"aa", "bb"}[signer]
	// times no clock reaches are not asked to count as the future
	good := vs.And(iss == owner, sub == iss, aud != "", jti != "", exp != 0, exp >= uint64(n), exp < 1<<62)
	if !outcome(res, err) {
		vs.Cover("refused")
		vs.Assert(vs.Or(!good, l.Fault), "genuine assertion refused")
		if vs.And(iss == owner, sub == iss, aud != "", jti != "", exp != 0, exp < uint64(n)) {
			vs.Cover("expired")
		}
		if vs.And(iss == "cc", sub == "cc", aud != "", jti != "", exp >= uint64(n), exp < 1<<62, !l.Fault) {
			vs.Cover("unknown")
			vs.Assert(res.Error.Err == "invalid_client", "unknown client reported with another code")
		}
		if l.Fault {
			vs.Cover("fault")
		}
		return
	}
	vs.Cover("accepted")
	vs.Assert(!l.Fault, "client authenticated though the storage failed")
	vs.Assert(vs.And(iss == sub, iss == owner), "assertion accepted that is not the client's own")
	vs.Assert(vs.And(aud != "", jti != ""), "assertion without audience or identifier accepted")
	vs.Assert(vs.And(exp != 0, exp >= uint64(n)), "expired assertion accepted")
	vs.Assert(vs.And(res.Client.ClientId == owner, res.Client == cs.List[signer]), "another client authenticated")
}

// The signature and the key set decide.
//
//gosym:bounds key sets of up to 2 of 4 keys, each for signing, encryption or any use, any key identifier against the header's, 6 algorithms, any signer, genuine or spoiled signature, and 5 documents that are no key set
//gosym:cover accepted,refused,encryption
//gosym:weight 3
func CheckKeys() {
	vs.SetNow(1700000000)
	var set []jose.JSONWebKey
	var idx []int
	var use []string
	k := vs.Choose("keys", 3)
	uses := []string{"", "sig", "enc"}
	for i := 0; i < k; i++ {
		idx = append(idx, vs.Choose("key", jt.N))
		use = append(use, uses[vs.Choose("use", 3)])
		set = append(set, jt.JWK(idx[i], "key-"+string(rune('a'+i)), use[i]))
	}
	cl := &clientv1.Client{ClientId: "aa", Jwks: jt.JWKS(set...)}
	if k == 0 {
		cl.Jwks = [][]byte{nil, []byte("{}"), []byte("null"), []byte(`{"keys":[]}`), []byte("[]"), []byte("{")}[vs.Choose("document", 6)]
	}
	l := &stub.Log{}
	cs := &stub.Clients{L: l, List: []*clientv1.Client{cl}}
	signer := vs.Choose("signer", jt.N)
	bad := vs.Choose("spoiled", 2) == 1
	h := map[string]any{"alg": jt.Alg(signer)}
	if kid := vs.Choose("kid", 3); kid > 0 {
		h["kid"] = []string{"key-a", "other"}[kid-1]
	}
	c := map[string]any{"iss": "aa", "sub": "aa", "aud": "as", "jti": "1", "exp": 1700000100, "iat": 1700000000}
	tok := jt.Raw(jt.JSON(h), jt.JSON(c), signer, bad)
	typ := oidc.AssertionTypeJWTBearer
	res, err := authenticate(cs, &typ, &tok)
	usable, forEnc := false, false
	for i := range idx {
		if idx[i] == signer {
			usable = usable || use[i] != "enc"
			forEnc = forEnc || use[i] == "enc"
		}
	}
	if outcome(res, err) {
		vs.Cover("accepted")
		vs.Assert(usable && !bad, "assertion accepted without a signature by a signing key of the client")
		return
	}
	vs.Cover("refused")
	if forEnc && !usable && !bad {
		vs.Cover("encryption")
	}
	vs.Assert(!usable || bad, "genuine assertion refused")
}

// Algorithms outside the supported ones are refused.
//
//gosym:bounds 8 algorithm names over a signature of the client's key
//gosym:cover accepted,refused
func CheckAlgorithm() {
	vs.SetNow(1700000000)
	cs := &stub.Clients{L: &stub.Log{}, List: []*clientv1.Client{{ClientId: "aa", Jwks: jt.JWKS(jt.JWK(0, "k", ""))}}}
	alg := []string{"ES256", "ES384", "ES512", "none", "HS256", "RS256", "", "EdDSA"}[vs.Choose("alg", 8)]
	c := map[string]any{"iss": "aa", "sub": "aa", "aud": "as", "jti": "1", "exp": 1700000100, "iat": 1700000000}
	tok := jt.Sign(map[string]any{"alg": alg}, c, 0)
	if alg == "none" && vs.Choose("unsigned", 2) == 1 {
		for i := len(tok) - 1; ; i-- {
			if tok[i] == '.' {
				tok = tok[:i+1]
				break
			}
		}
	}
	typ := oidc.AssertionTypeJWTBearer
	if outcome(authenticate(cs, &typ, &tok)) {
		vs.Cover("accepted")
		vs.Assert(alg == "ES256", "assertion with another algorithm accepted")
	} else {
		vs.Cover("refused")
		vs.Assert(alg != "ES256", "genuine assertion refused")
	}
}

// The assertion type is the JWT one and ill-formed input is refused.
//
//gosym:bounds absent request, absent or arbitrary assertion types (up to 60 characters), 20 ill-formed assertions
//gosym:cover type,text,request
func CheckMalformed() {
	vs.SetNow(1700000000)
	cs := &stub.Clients{L: &stub.Log{}, List: []*clientv1.Client{{ClientId: "aa", Jwks: jt.JWKS(jt.JWK(0, "k", ""))}}}
	h := map[string]any{"alg": "ES256"}
	good := jt.Sign(h, map[string]any{"iss": "aa", "sub": "aa", "aud": "as", "jti": "1", "exp": 1700000100}, 0)
	typ := oidc.AssertionTypeJWTBearer
	doc := func(s string) string { return jt.Raw(jt.JSON(h), []byte(s), 0, false) }
	switch vs.Choose("what", 3) {
	case 0:
		vs.Cover("request")
		res, err := clientauthentication.PrivateKeyJWT(cs, algs).Authenticate(stub.Ctx(), nil)
		vs.Assert(!outcome(res, err), "absent request accepted")
	case 1:
		vs.Cover("type")
		tp := &typ
		if vs.Choose("absent", 2) == 1 {
			tp = nil
		} else {
			typ = vs.StrIn("type", 0, 60, jt.Printable)
		}
		ok := outcome(authenticate(cs, tp, &good))
		vs.Assert(ok == (tp != nil && typ == "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"), "assertion of another type accepted, or a genuine one refused")
	case 2:
		vs.Cover("text")
		var tp *string
		texts := []string{"", ".", "..", "a.b.c", "e30.e30.", "e30.e30.AAAA", "{}", "eyJhbGciOiJub25lIn0.e30.", good + ".", good[:len(good)-2], "." + good,
			doc(``), doc(`null`), doc(`{}`), doc(`[]`), doc(`{"iss":1}`), doc(`{"iss":null,"sub":null,"aud":"x","jti":"x","exp":1}`),
			doc(`{"iss":"aa","sub":"aa","aud":"as","jti":"1","exp":-1}`), doc(`{"iss":"aa","sub":"aa","aud":"as","jti":"1","exp":"1700000100"}`), doc(`{"iss":"aa","sub":"aa","aud":"as","jti":"1"}`)}
		if i := vs.Choose("text", len(texts)+1); i < len(texts) {
			tp = &texts[i]
		}
		vs.Assert(!outcome(authenticate(cs, &typ, tp)), "ill-formed assertion accepted")
	}
}
