// Package x01: the example servers enforce sender-constrained tokens end to end.
package x01

import (
	"context"
	"crypto/sha256"
	"encoding/base64"
	"errors"
	"net/http"

	"github.com/go-jose/go-jose/v4"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/client"
	"zntr.io/solid/examples/authorizationserver/handlers"
	"zntr.io/solid/examples/authorizationserver/middleware"
	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/sdk/types"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/resourceserver"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
	"zntr.io/solid/zzverif/web"
)

var algs = []jose.SignatureAlgorithm{jose.ES256, jose.ES384}

func ath(t string) string {
	h := sha256.Sum256([]byte(t))
	return base64.RawURLEncoding.EncodeToString(h[:])
}

// proof is one of the ways to present a proof of key 1; fits tells whether the server has to accept it.
func proof(kind int, now int64, method, target, token string) (compact string, fits bool) {
	h := map[string]any{"alg": "ES256", "typ": "dpop+jwt", "jwk": jt.JWK(1, "", "")}
	c := map[string]any{"jti": "0123456789abcdef", "htm": method, "htu": target, "iat": uint64(now)}
	if token != "" {
		c["ath"] = ath(token)
	}
	switch kind {
	case 0:
		return "", false
	case 1:
		return jt.Sign(h, c, 1), true
	case 2:
		c["htu"] = target + "x"
	case 3:
		c["htm"] = "PUT"
	case 4:
		c["iat"] = uint64(now - 16)
	case 5:
		return jt.Forge(h, c, 1), false
	case 6:
		return jt.Sign(h, c, 0), false
	case 7:
		c["ath"] = ath(token + "x")
		return jt.Sign(h, c, 1), token == ""
	case 8:
		delete(c, "ath")
		return jt.Sign(h, c, 1), token == ""
	}
	return jt.Sign(h, c, 1), false
}

const tokenURL = "https://as.example/token"

// The token endpoint hands out tokens only to an authenticated client that proves its key.
//
//gosym:bounds 4 grants over one stored artefact each, a confidential and a public client with arbitrary settings, 6 client assertions, 7 proofs, replayed or not, POST and GET, every second of the window; all other fields of the stored artefacts arbitrary
//gosym:cover issued,bound,bearer,refused
//gosym:weight 4
func CheckToken() {
	n := stub.Now("now")
	confidential := &clientv1.Client{ClientId: "c", ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, GrantTypes: stub.Grants,
		RedirectUris: []string{stub.Redir}, Jwks: jt.JWKS(jt.JWK(0, "k", ""))}
	public := stub.AllGrants("p")
	public.ClientType = clientv1.ClientType_CLIENT_TYPE_PUBLIC
	t := stub.NewTok(false, confidential, public)

	who := vs.Choose("client", 3)
	id, target := "c", tokenURL
	form := map[string]string{}
	authenticated := false
	switch who {
	case 0: // private_key_jwt
		a, ok := web.Assertion(vs.Choose("assertion", 6), n, stub.Issuer)
		form["client_assertion_type"], form["client_assertion"] = oidc.AssertionTypeJWTBearer, a
		authenticated = ok
	case 1: // a public client names itself
		id, target = "p", tokenURL+"?client_id=p"
		authenticated = true
	default: // a confidential one must not
		target = tokenURL + "?client_id=c"
	}
	t.Fill(id, "openid offline_access", n)
	grant := stub.Grants[vs.Choose("grant", 4)]
	form["grant_type"] = grant
	form["code"], form["code_verifier"], form["redirect_uri"] = "code", stub.Verifier, stub.Redir
	form["device_code"], form["refresh_token"] = "device", "token"

	verifier := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier(algs))
	method := []string{"POST", "GET"}[vs.Choose("method", 2)]
	kind := vs.Choose("proof", 7)
	p, fits := proof(kind, n, method, tokenURL, "")
	if kind == 1 && vs.Choose("replayed", 2) == 1 {
		_, err := verifier.Verify(context.Background(), method, tokenURL, p)
		vs.Assert(err == nil, "genuine proof refused")
		fits = false
	}
	h := middleware.Adapt(handlers.Token(stub.Issuer, t.Svc, verifier), middleware.ClientAuthentication(t.Clients, algs))
	r := web.Request(method, target, form)
	if p != "" {
		r.Header.Set("DPoP", p)
	}
	a := web.Serve(h, r)

	doc := a.Doc()
	at, _ := doc["access_token"].(string)
	stored, iss := t.Stored("at1")
	if a.Code != 200 {
		vs.Cover("refused")
		vs.Assert(at == "" && doc["refresh_token"] == nil, "a refusal carries a token")
		vs.Assert(stored == nil, "a token of a refused request is stored")
		return
	}
	vs.Cover("issued")
	vs.Assert(authenticated, "token for a client that is not authenticated")
	vs.Assert(method == "POST", "token by GET")
	vs.Assert(at == "at1" && stored != nil && iss == stub.Issuer, "the access token is not the stored one")
	vs.Assert(stored.Metadata.ClientId == id, "token of another client")
	vs.Assert(kind == 0 || fits, "token though the proof does not fit")
	owner := confidential
	if who == 1 {
		owner = public
	}
	vs.Assert(vs.Implies(kind == 0, !owner.DpopBoundAccessTokens), "token without proof for a client that needs one")
	if kind == 0 {
		vs.Cover("bearer")
		vs.Assert(doc["token_type"] == "Bearer", "wrong token type")
		vs.Assert(stored.Confirmation == nil, "binding without a proof")
		return
	}
	vs.Cover("bound")
	vs.Assert(doc["token_type"] == "DPoP", "wrong token type")
	vs.Assert(stored.Confirmation != nil && stored.Confirmation.Jkt == jt.Thumb(1), "token not bound to the key of the proof")
}

// A pushed request is stored only for the authenticated client that signed it and proved its key.
//
//gosym:bounds 6 client assertions, 7 proofs, 6 request objects, POST and GET; other settings of the client arbitrary
//gosym:cover stored,refused
//gosym:weight 3
func CheckPushed() {
	const n, parURL = 1700000000, "https://as.example/par"
	vs.SetNow(n)
	c := stub.AllGrants("c")
	c.Jwks = jt.JWKS(jt.JWK(0, "k", ""), jt.JWK(2, "r", ""))
	other := stub.AllGrants("d")
	other.Jwks = jt.JWKS(jt.JWK(3, "r", ""))
	az := stub.NewAuthz(false, c, other)
	az.URI.Value, az.Requests.TTL = "pushed", 60
	h := map[string]any{"alg": "ES384", "kid": "r"}
	claims := map[string]any{"client_id": "c", "redirect_uri": stub.Redir, "scope": "openid", "response_type": "code", "response_mode": "query", "audience": "aud",
		"state": "0123456789abcdef0123456789abcdef", "nonce": "0123456789abcdef", "code_challenge": stub.Challenge(stub.Verifier), "code_challenge_method": "S256"}
	object, signed := "", false
	what := vs.Choose("request", 6)
	switch what {
	case 0:
		object, signed = jt.Sign(h, claims, 2), true
	case 1:
		object = jt.Forge(h, claims, 2)
	case 2: // another client's key
		object = jt.Sign(h, claims, 3)
	case 3: // for another client
		claims["client_id"] = "d"
		object = jt.Sign(h, claims, 2)
	case 4:
		delete(claims, "code_challenge")
		object = jt.Sign(h, claims, 2)
	}
	comp, authenticated := web.Assertion(vs.Choose("assertion", 6), n, stub.Issuer)
	verifier := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier(algs))
	method := []string{"POST", "GET"}[vs.Choose("method", 2)]
	p, fits := proof(vs.Choose("proof", 7), n, method, parURL, "")
	srv := middleware.Adapt(handlers.PushedAuthorizationRequest(stub.Issuer, az.Svc, verifier), middleware.ClientAuthentication(az.Clients, algs))
	r := web.Request(method, parURL, map[string]string{"client_assertion_type": oidc.AssertionTypeJWTBearer, "client_assertion": comp})
	r.URL.RawQuery = "request=" + object
	r.Header.Set("DPoP", p)
	a := web.Serve(srv, r)
	if a.Code != 201 {
		vs.Cover("refused")
		vs.Assert(az.L.Count("requests.Register") == 0, "a refused request is stored")
		vs.Assert(a.Doc()["request_uri"] == nil, "reference handed out with a refusal")
		return
	}
	vs.Cover("stored")
	vs.Assert(authenticated, "request of a client that is not authenticated")
	vs.Assert(method == "POST", "request by GET")
	vs.Assert(signed, "request that the client did not sign for itself, or that lacks a challenge")
	vs.Assert(fits, "request without a fitting proof")
	vs.Assert(az.L.Count("requests.Register") == 1, "request not stored")
	for _, e := range az.L.Ev {
		if e.Op == "requests.Register" {
			q := e.Val.(*flowv1.AuthorizationRequest)
			vs.Assert(e.Issuer == stub.Issuer && q.ClientId == "c" && q.RedirectUri == stub.Redir && q.CodeChallenge == stub.Challenge(stub.Verifier), "another request stored")
			vs.Assert(e.Key == "pushed" && a.Doc()["request_uri"] == "pushed", "another reference handed out")
		}
	}
	vs.Assert(a.Doc()["iss"] == nil && a.Doc()["issuer"] == stub.Issuer, "another issuer named")
}

// answers is a token service with given answers.
type tokenz services.Token

type answers struct {
	tokenz
	res *tokenv1.IntrospectResponse
	err error
	got *tokenv1.IntrospectRequest
}

func (s *answers) Introspect(_ context.Context, r *tokenv1.IntrospectRequest) (*tokenv1.IntrospectResponse, error) {
	s.got = r
	return s.res, s.err
}

// The introspection endpoint reports a token as active only when it is, with its binding.
//
//gosym:bounds every status, every validity and instant of the window, confirmation absent, empty or of up to 2 characters, 6 client assertions
//gosym:cover active,inactive,bound,unauthenticated
//gosym:weight 2
func CheckIntrospect() {
	n := stub.Now("now")
	cs := &stub.Clients{L: &stub.Log{}, List: []*clientv1.Client{{ClientId: "c", Jwks: jt.JWKS(jt.JWK(0, "k", ""))}}}
	tok := &tokenv1.Token{Issuer: stub.Issuer, TokenType: stub.Access, TokenId: "tid", Value: "token",
		Status: tokenv1.TokenStatus(vs.IntRange("status", 0, 5)),
		Metadata: &tokenv1.TokenMeta{Issuer: stub.Issuer, Subject: vs.StrIn("sub", 0, 2, jt.Printable), ClientId: "c", Scope: "openid", Audience: "aud",
			IssuedAt: 1, NotBefore: uint64(vs.Int64Range("nbf", 0, stub.MaxTime)), ExpiresAt: uint64(vs.Int64Range("exp", 0, stub.MaxTime))}}
	if vs.Choose("confirmation", 2) == 1 {
		tok.Confirmation = &tokenv1.TokenConfirmation{Jkt: vs.StrIn("jkt", 0, 2, jt.Printable)}
	}
	s := &answers{res: &tokenv1.IntrospectResponse{Token: tok}}
	comp, authenticated := web.Assertion(vs.Choose("assertion", 6), n, stub.Issuer)
	h := middleware.Adapt(handlers.TokenIntrospection(stub.Issuer, s), middleware.ClientAuthentication(cs, algs))
	a := web.Serve(h, web.Request("POST", "https://as.example/token/introspect", map[string]string{
		"client_assertion_type": oidc.AssertionTypeJWTBearer, "client_assertion": comp, "token": "token"}))
	if !authenticated {
		vs.Cover("unauthenticated")
		vs.Assert(a.Code != 200 && s.got == nil, "introspection without authentication")
		return
	}
	vs.Assert(a.Code == 200, "introspection of an authenticated client refused")
	vs.Assert(s.got != nil && s.got.Issuer == stub.Issuer && s.got.Token == "token" && s.got.Client == cs.List[0], "another token or client introspected")
	doc := a.Doc()
	usable := vs.And(tok.Status == stub.Active, tok.Metadata.ExpiresAt >= uint64(n), tok.Metadata.NotBefore <= uint64(n))
	if act, _ := doc["active"].(bool); !act {
		vs.Cover("inactive")
		vs.Assert(vs.Or(!usable, tok.Metadata.ExpiresAt == uint64(n), tok.Metadata.NotBefore == uint64(n)), "usable token reported as inactive")
		vs.Assert(len(doc) == 1, "an inactive token is described")
		return
	}
	vs.Cover("active")
	vs.Assert(usable, "unusable token reported as active")
	vs.Assert(doc["iss"] == stub.Issuer && doc["client_id"] == "c" && doc["jti"] == "tid", "another token described")
	vs.Assert(doc["sub"] == tok.Metadata.Subject, "another subject reported")
	if tok.Confirmation == nil {
		vs.Assert(doc["token_type"] == "Bearer" && doc["cnf"] == nil, "binding invented")
		return
	}
	vs.Cover("bound")
	vs.Assert(doc["token_type"] == "DPoP", "bound token reported as bearer token")
	cnf, _ := doc["cnf"].(map[string]any)
	jkt, _ := cnf["jkt"].(string)
	vs.Assert(cnf != nil && jkt == tok.Confirmation.Jkt, "another binding reported")
}

// issuer is the authorization server as the resource server sees it.
type issuer struct {
	client.Client
	tok         *tokenv1.Token
	asserts, ok bool
	asked       string
}

func (i *issuer) Assertion() (string, error) {
	if !i.asserts {
		return "", errors.New("assertion")
	}
	return "assertion", nil
}

func (i *issuer) Introspect(_ context.Context, a, t string) (*tokenv1.Token, error) {
	i.asked = t
	if !i.ok || a != "assertion" {
		return nil, errors.New("introspect")
	}
	return i.tok, nil
}

const (
	resURL   = "https://rs.example/"
	resID    = "t8p9duw4n2klximkv3kagaud796ul67g"
	tokValue = "token-value"
)

// The resource server admits a request only with an active token and, for a bound one, the proof of its key.
//
//gosym:bounds 9 Authorization headers, 9 proofs, replayed or not, GET and POST, every status, confirmation absent, of the key of the proof or of up to 3 characters, every authentication time and instant of the window, 3 authentication levels, permitted and other clients and subjects, any failure of the authorization server
//gosym:cover admitted,bearer,bound,refused
//gosym:weight 4
func CheckResource() {
	n := stub.Now("now")
	i := &issuer{asserts: vs.Bool("asserts"), ok: vs.Bool("answers")}
	i.tok = &tokenv1.Token{Status: tokenv1.TokenStatus(vs.IntRange("status", 0, 5)),
		Metadata: &tokenv1.TokenMeta{ClientId: vs.Pick("client", resID, "attestation-client", "other"), Subject: vs.Pick("subject", "", "user")}}
	switch vs.Choose("confirmation", 3) {
	case 1:
		i.tok.Confirmation = &tokenv1.TokenConfirmation{Jkt: jt.Thumb(1)}
	case 2:
		i.tok.Confirmation = &tokenv1.TokenConfirmation{Jkt: vs.StrIn("jkt", 0, 3, jt.Printable)}
	}
	if vs.Choose("auth time", 2) == 1 {
		t := uint64(vs.Int64Range("auth_time", 0, stub.MaxTime))
		i.tok.Metadata.AuthTime = &t
	}
	if vs.Choose("acr", 2) == 1 {
		i.tok.Metadata.Acr = stub.Ptr(vs.Pick("acr value", "low", "high", ""))
	}
	admitted := 0
	next := http.HandlerFunc(func(http.ResponseWriter, *http.Request) { admitted++ })
	intent := []string{"timestamp:read", "timestamp:write"}[vs.Choose("intent", 2)]
	h := resourceserver.Authorizer(next, intent, i, types.StringArray{"high"}, 30)

	method := []string{"GET", "POST"}[vs.Choose("method", 2)]
	kind := vs.Choose("proof", 9)
	p, fits := proof(kind, n, method, resURL, tokValue)
	schemes := []string{"", "Bearer " + tokValue, "bearer " + tokValue, "DPoP " + tokValue, "dpop " + tokValue, "Basic " + tokValue, "Bearer", "DPoP", "BearerDPoP " + tokValue}
	scheme := vs.Choose("authorization", len(schemes))
	r := web.Request(method, resURL, nil)
	if scheme != 0 {
		r.Header.Set("Authorization", schemes[scheme])
	}
	if p != "" {
		r.Header.Set("DPoP", p)
	}
	if kind == 1 && scheme == 3 && vs.Choose("replayed", 2) == 1 {
		web.Serve(h, r)
		admitted, fits = 0, false
	}
	a := web.Serve(h, r)

	bearer, bound := scheme == 1 || scheme == 2, scheme == 3 || scheme == 4
	good := vs.And(i.asserts, i.ok, i.tok.Status == stub.Active, intent == "timestamp:read", i.tok.Metadata.ClientId != "other", i.tok.Metadata.Subject == "")
	if i.tok.Metadata.AuthTime != nil {
		// An authentication of the future is none.
		good = vs.And(good, *i.tok.Metadata.AuthTime <= uint64(n), *i.tok.Metadata.AuthTime+30 >= uint64(n))
	}
	if i.tok.Metadata.Acr != nil {
		good = vs.And(good, *i.tok.Metadata.Acr == "high")
	}
	binding := i.tok.Confirmation == nil
	if bound {
		binding = i.tok.Confirmation != nil && i.tok.Confirmation.Jkt == jt.Thumb(1)
		binding = vs.And(binding, fits)
	}
	good = vs.And(good, bearer || bound, binding)
	if admitted == 0 {
		vs.Cover("refused")
		vs.Assert(!good, "authorised request refused")
		vs.Assert(a.Code >= 400, "refusal without an error status")
		return
	}
	vs.Cover("admitted")
	vs.Assert(good, "request admitted that is not authorised")
	vs.Assert(i.asked == tokValue, "another token introspected")
	if bearer {
		vs.Cover("bearer")
	} else {
		vs.Cover("bound")
	}
}
