// Package f02: attestation authenticates only the attested instance of the attested client.
package f02

import (
	"github.com/go-jose/go-jose/v4"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/server/clientauthentication"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

var algs = []jose.SignatureAlgorithm{jose.ES256, jose.ES384}

func now() int64 {
	n := vs.Int64Range("now", 1000, 1<<40)
	vs.SetNow(n)
	return n
}

// Key 0 is the attester's, key 2 the attested instance's, key 1 the other client's own.
func clients(l *stub.Log) *stub.Clients {
	return &stub.Clients{L: l, List: []*clientv1.Client{
		{ClientId: "is", Jwks: jt.JWKS(jt.JWK(0, "k", ""))},
		{ClientId: "aa", Jwks: jt.JWKS(jt.JWK(2, "k", ""))},
		{ClientId: "bb", Jwks: jt.JWKS(jt.JWK(1, "k", ""))},
		{ClientId: "cc"},
	}}
}

func authenticate(cs *stub.Clients, typ, assertion *string) (*clientv1.AuthenticateResponse, error) {
	p := clientauthentication.ClientAttestation(cs, algs)
	return p.Authenticate(stub.Ctx(), &clientv1.AuthenticateRequest{ClientAssertionType: typ, ClientAssertion: assertion})
}

func outcome(res *clientv1.AuthenticateResponse, err error) bool {
	vs.Assert(res != nil, "no answer")
	if err != nil {
		vs.Assert(res.Client == nil, "client handed out with an error")
		vs.Assert(res.Error != nil && res.Error.Err != "", "failure without an error code")
		return false
	}
	vs.Assert(res.Error == nil, "error code without a failure")
	vs.Assert(res.Client != nil, "success without a client")
	return true
}

func head(k int) map[string]any { return map[string]any{"alg": jt.Alg(k)} }

// The claims of attestation and proof decide.
//
//gosym:bounds arbitrary printable issuer and subject of the attestation and issuer of the proof (up to 3), audience and identifier (up to 1 character), every 64-bit expiry and start of validity of either, every 40-bit instant, any storage failure; four registered clients
//gosym:cover accepted,refused,foreign,expired,early,fault
//gosym:weight 4
func CheckClaims() {
	n := now()
	l := &stub.Log{MayFail: true}
	cs := clients(l)
	iss, sub := vs.StrIn("iss", 0, 3, jt.Printable), vs.StrIn("sub", 0, 3, jt.Printable)
	exp, nbf := vs.Uint64("exp"), vs.Uint64("nbf")
	piss, paud, pjti := vs.StrIn("pop iss", 0, 3, jt.Printable), vs.StrIn("pop aud", 0, 1, jt.Printable), vs.StrIn("pop jti", 0, 1, jt.Printable)
	pexp, pnbf := vs.Uint64("pop exp"), vs.Uint64("pop nbf")
	a := jt.Sign(head(0), map[string]any{"iss": iss, "sub": sub, "exp": exp, "nbf": nbf, "cnf": map[string]any{"jwk": jt.JWK(2, "", "")}}, 0)
	p := jt.Sign(head(2), map[string]any{"iss": piss, "aud": paud, "jti": pjti, "exp": pexp, "nbf": pnbf}, 2)
	typ, tok := oidc.AssertionTypeJWTClientAttestation, a+"~"+p
	res, err := authenticate(cs, &typ, &tok)
	known := vs.Or(sub == "is", sub == "aa", sub == "bb", sub == "cc")
	who := vs.And(iss == "is", known, piss == sub)
	when := vs.And(exp >= uint64(n), nbf <= uint64(n), pexp >= uint64(n), pnbf <= uint64(n))
	// times no clock reaches are not asked to count as the future
	good := vs.And(who, when, paud != "", pjti != "", exp < 1<<62, pexp < 1<<62)
	if !outcome(res, err) {
		vs.Cover("refused")
		vs.Assert(vs.Or(!good, l.Fault), "genuine attestation refused")
		if vs.And(when, paud != "", pjti != "", iss == "is", sub == "aa", piss == "bb", !l.Fault) {
			vs.Cover("foreign")
		}
		if vs.And(who, paud != "", pjti != "", exp >= uint64(n), nbf <= uint64(n), pexp < uint64(n)) {
			vs.Cover("expired")
		}
		if vs.And(who, paud != "", pjti != "", exp >= uint64(n), nbf > uint64(n)) {
			vs.Cover("early")
		}
		if l.Fault {
			vs.Cover("fault")
		}
		return
	}
	vs.Cover("accepted")
	vs.Assert(!l.Fault, "client authenticated though the storage failed")
	vs.Assert(iss == "is", "attestation of an unregistered issuer accepted")
	vs.Assert(vs.And(known, piss == sub), "proof of another client than the attested one accepted")
	vs.Assert(vs.And(exp >= uint64(n), nbf <= uint64(n)), "attestation accepted outside its validity")
	vs.Assert(vs.And(pexp >= uint64(n), pnbf <= uint64(n)), "proof accepted outside its validity")
	vs.Assert(vs.And(paud != "", pjti != ""), "proof without audience or identifier accepted")
	vs.Assert(res.Client.ClientId == sub, "another client authenticated")
}

// The keys and signatures decide.
//
//gosym:bounds attestation and proof each signed by any of 4 keys, genuine or spoiled, attested key absent, public, private or symmetric, of any of 4 keys; attester's key for any use or encryption
//gosym:cover accepted,refused
//gosym:weight 3
func CheckKeys() {
	vs.SetNow(1700000000)
	cs := clients(&stub.Log{})
	use := []string{"", "sig", "enc"}[vs.Choose("use", 3)]
	cs.List[0].Jwks = jt.JWKS(jt.JWK(0, "k", use))
	s1, s2 := vs.Choose("attester", jt.N), vs.Choose("prover", jt.N)
	bad := vs.Choose("spoiled", 3)
	kind, key := vs.Choose("attested", 5), vs.Choose("key", jt.N)
	if kind > 1 {
		vs.Assume(key == 2)
	}
	c := map[string]any{"iss": "is", "sub": "aa", "exp": 1700000100}
	switch kind {
	case 0:
		c["cnf"] = map[string]any{"jwk": jt.JWK(key, "", "")}
	case 1:
		c["cnf"] = map[string]any{"jwk": jt.PrivJWK(key, "", "")}
	case 2:
		c["cnf"] = map[string]any{"jwk": map[string]any{"kty": "oct", "k": "AAAA"}}
	case 3:
		c["cnf"] = map[string]any{}
	}
	a := jt.Raw(jt.JSON(head(s1)), jt.JSON(c), s1, bad == 1)
	p := jt.Raw(jt.JSON(head(s2)), jt.JSON(map[string]any{"iss": "aa", "aud": "as", "jti": "1", "exp": 1700000100}), s2, bad == 2)
	typ, tok := oidc.AssertionTypeJWTClientAttestation, a+"~"+p
	good := s1 == 0 && use != "enc" && bad == 0 && kind == 0 && key == s2
	if outcome(authenticate(cs, &typ, &tok)) {
		vs.Cover("accepted")
		vs.Assert(good, "attestation accepted without the signatures of a registered issuer and the attested key")
		return
	}
	vs.Cover("refused")
	vs.Assert(!good, "genuine attestation refused")
}

// Ill-formed and missing parts are refused.
//
//gosym:bounds absent request, arbitrary assertion types (up to 70 characters), 12 ill-formed combinations, 16 ill-formed attestation documents, 12 proof documents, 6 key sets of the issuer
//gosym:cover type,text,request,attestation,proof,keys
func CheckMalformed() {
	vs.SetNow(1700000000)
	cs := clients(&stub.Log{})
	cnf := string(jt.JSON(map[string]any{"jwk": jt.JWK(2, "", "")}))
	att := func(s string) string { return jt.Raw(jt.JSON(head(0)), []byte(s), 0, false) }
	pop := func(s string) string { return jt.Raw(jt.JSON(head(2)), []byte(s), 2, false) }
	a := att(`{"iss":"is","sub":"aa","exp":1700000100,"cnf":` + cnf + `}`)
	p := pop(`{"iss":"aa","aud":"as","jti":"1","exp":1700000100}`)
	typ := oidc.AssertionTypeJWTClientAttestation
	tok := a + "~" + p
	tp, kp := &tok, &typ
	ok := false
	switch vs.Choose("what", 6) {
	case 0:
		vs.Cover("request")
		res, err := clientauthentication.ClientAttestation(cs, algs).Authenticate(stub.Ctx(), nil)
		vs.Assert(!outcome(res, err), "absent request accepted")
		return
	case 1:
		vs.Cover("type")
		if vs.Choose("absent", 2) == 1 {
			kp = nil
		} else {
			typ = vs.StrIn("type", 0, 70, jt.Printable)
			ok = typ == "urn:ietf:params:oauth:client-assertion-type:jwt-client-attestation"
		}
	case 2:
		vs.Cover("text")
		texts := []string{"", "~", "~~", a, a + "~", "~" + p, p + "~" + a, a + "~" + p + "~", a + "~~" + p, a + "." + p, "a.b.c~a.b.c", "e30.e30.~e30.e30."}
		if i := vs.Choose("text", len(texts)+1); i < len(texts) {
			tok = texts[i]
		} else {
			tp = nil
		}
	case 3:
		vs.Cover("attestation")
		docs := []string{``, `null`, `{}`, `[]`, `"x"`,
			`{"sub":"aa","exp":1700000100,"cnf":` + cnf + `}`,
			`{"iss":"is","exp":1700000100,"cnf":` + cnf + `}`,
			`{"iss":"is","sub":"aa","cnf":` + cnf + `}`,
			`{"iss":"is","sub":"aa","exp":1700000100}`,
			`{"iss":"is","sub":"aa","exp":1700000100,"cnf":null}`,
			`{"iss":"is","sub":"aa","exp":1700000100,"cnf":{}}`,
			`{"iss":"is","sub":"aa","exp":1700000100,"cnf":[]}`,
			`{"iss":"is","sub":"aa","exp":1700000100,"cnf":{"jwk":null}}`,
			`{"iss":"is","sub":"aa","exp":1700000100,"cnf":{"jwk":{}}}`,
			`{"iss":"is","sub":"aa","exp":1700000100,"cnf":{"jwk":{"kty":"EC","crv":"P-384","x":"AA","y":"AA"}}}`,
			`{"iss":"is","sub":"aa","exp":-1,"cnf":` + cnf + `}`}
		tok = att(docs[vs.Choose("doc", len(docs))]) + "~" + p
	case 4:
		vs.Cover("proof")
		docs := []string{``, `null`, `{}`, `[]`, `"x"`,
			`{"aud":"as","jti":"1","exp":1700000100}`, `{"iss":"aa","jti":"1","exp":1700000100}`, `{"iss":"aa","aud":"as","exp":1700000100}`, `{"iss":"aa","aud":"as","jti":"1"}`,
			`{"iss":"aa","aud":"as","jti":"1","exp":1699999999}`, `{"iss":"aa","aud":"as","jti":"1","exp":1700000100,"nbf":1700000001}`, `{"iss":["aa"],"aud":"as","jti":"1","exp":1700000100}`}
		tok = a + "~" + pop(docs[vs.Choose("doc", len(docs))])
	case 5:
		vs.Cover("keys")
		cs.List[0].Jwks = [][]byte{nil, []byte("{}"), []byte("null"), []byte(`{"keys":[]}`), []byte("[]"), []byte(`{"keys":[null]}`)}[vs.Choose("document", 6)]
	}
	vs.Assert(outcome(authenticate(cs, kp, tp)) == ok, "ill-formed attestation accepted, or a genuine one refused")
}
