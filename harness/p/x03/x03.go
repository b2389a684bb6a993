// Package x03: the example authorization, device and revocation endpoints act only for whom they authenticated.
package x03

import (
	"context"
	"encoding/base64"
	"net/http"
	"net/url"

	"github.com/go-jose/go-jose/v4"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/examples/authorizationserver/handlers"
	"zntr.io/solid/examples/authorizationserver/middleware"
	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/pairwise"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/services/device"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
	"zntr.io/solid/zzverif/web"
)

var algs = []jose.SignatureAlgorithm{jose.ES256, jose.ES384}

const now = 1700000000

// login adds one of 8 ways to authenticate as a user; only one is right.
func login(r *http.Request) bool {
	kind := vs.Choose("login", 8)
	if kind == 0 {
		return false
	}
	c := []string{"", "hello:world", "hello:", ":world", "hello:World", " : ", "admin:world", "hello:world:"}[kind]
	r.Header.Set("Authorization", "Basic "+base64.StdEncoding.EncodeToString([]byte(c)))
	return kind == 1
}

// A code is issued only to an authenticated user for a request that the client signed, and only the response the client can verify carries it.
//
//gosym:bounds 8 logins, 6 request objects, GET and POST, 4 response modes, pairwise and public subjects, a known and an unknown client
//gosym:cover issued,pairwise,refused
//gosym:weight 3
func CheckAuthorize() {
	vs.SetNow(now)
	c := stub.AllGrants("c")
	c.Jwks = jt.JWKS(jt.JWK(0, "k", ""), jt.JWK(2, "r", ""))
	c.ResponseModes = []string{"query", "query.jwt", "fragment.jwt", "jwt"}
	c.SectorIdentifier = "sector.example"
	c.SubjectType = []string{"public", oidc.SubjectTypePairwise}[vs.Choose("subject type", 2)]
	other := stub.AllGrants("d")
	other.Jwks = jt.JWKS(jt.JWK(3, "r", ""))
	az := stub.NewAuthz(false, c, other)
	az.Code.Value, az.Sessions.TTL = "the-code", 60
	mode := c.ResponseModes[vs.Choose("mode", 4)]
	claims := map[string]any{"client_id": "c", "redirect_uri": stub.Redir, "scope": "openid", "response_type": "code", "response_mode": mode, "audience": "aud",
		"state": "0123456789abcdef0123456789abcdef", "nonce": "0123456789abcdef", "code_challenge": stub.Challenge(stub.Verifier), "code_challenge_method": "S256"}
	h := map[string]any{"alg": "ES384", "kid": "r"}
	object, signed := "", false
	switch vs.Choose("request", 6) {
	case 0:
		object, signed = jt.Sign(h, claims, 2), true
	case 1:
		object = jt.Forge(h, claims, 2)
	case 2: // another client's key
		object = jt.Sign(h, claims, 3)
	case 3: // a key that is not the client's for requests
		h["alg"], h["kid"] = "ES256", "k"
		object = jt.Sign(h, claims, 0)
	case 4:
		claims["redirect_uri"] = stub.Redir2
		object = jt.Sign(h, claims, 2)
	}
	key := jt.PrivJWK(3, "as", "")
	enc := jarm.Encoder(jwt.JARMSigner(jose.ES384, func(context.Context) (*jose.JSONWebKey, error) { return &key, nil }))
	pw := pairwise.Hash([]byte("very-secret-salt-of-the-server-"))
	srv := middleware.Adapt(handlers.Authorization(stub.Issuer, az.Svc, az.Clients, enc, pw), middleware.SecurityHaders(), middleware.BasicAuthentication())
	method := []string{"GET", "POST"}[vs.Choose("method", 2)]
	id := []string{"c", "x"}[vs.Choose("client", 2)]
	r := web.Request(method, "https://as.example/authorize", nil)
	r.URL.RawQuery = "client_id=" + id + "&request=" + object
	user := login(r)
	a := web.Serve(srv, r)
	loc := a.H.Get("Location")
	if a.Code != 302 {
		vs.Cover("refused")
		vs.Assert(loc == "" && az.L.Count("sessions.Register") == 0, "a refused request leaves a session or a redirection")
		return
	}
	vs.Cover("issued")
	vs.Assert(user, "code for a user that is not authenticated")
	vs.Assert(method == "GET", "code by POST")
	vs.Assert(signed && id == "c", "code for a request that its client did not sign")
	vs.Assert(az.L.Count("sessions.Register") == 1, "answer without a session")
	sub := "hello"
	if c.SubjectType == oidc.SubjectTypePairwise {
		vs.Cover("pairwise")
		sub, _ = pw.Encode(c.SectorIdentifier, "hello")
	}
	for _, e := range az.L.Ev {
		if e.Op == "sessions.Register" {
			s := e.Val.(*sessionv1.AuthorizationCodeSession)
			vs.Assert(e.Issuer == stub.Issuer && e.Key == "the-code" && s.Subject == sub && s.Request.ClientId == "c", "session of another user or client")
		}
	}
	u, err := url.Parse(loc)
	vs.Assert(err == nil && u.Scheme == "https" && u.Host == "app.example" && u.Path == "/cb", "code sent elsewhere")
	q := u.Query()
	if mode == "fragment.jwt" {
		vs.Assert(u.RawQuery == "", "code in the query")
		q, err = url.ParseQuery(u.Fragment)
		vs.Assert(err == nil, "ill-formed fragment")
	}
	pub := jt.JWK(3, "as", "")
	res, err := jarm.Decoder(stub.Issuer, jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) {
		return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{pub}}, nil
	}, algs)).Decode(context.Background(), "c", q.Get("response"))
	vs.Assert(err == nil && len(q) == 1, "the client cannot verify the answer")
	vs.Assert(res != nil && res.Code == "the-code" && res.State == "0123456789abcdef0123456789abcdef", "another code or state sent")
}

// A device is approved only by an authenticated user, in the user's own name.
//
//gosym:bounds 8 logins, 3 user codes, POST and PUT, every second of the window and state of the session
//gosym:cover approved,refused
//gosym:weight 2
func CheckApprove() {
	n := stub.Now("now")
	l := &stub.Log{}
	d := &stub.Devices{L: l, Issuer: stub.Issuer, DeviceCode: "device", UserCode: "user-code"}
	d.S = &sessionv1.DeviceCodeSession{Issuer: stub.Issuer, Client: &clientv1.Client{ClientId: "c"}, ExpiresAt: vs.Uint64("expires"),
		Status: sessionv1.DeviceCodeStatus(vs.IntRange("status", 0, 4)), DeviceCode: "device", Request: &flowv1.DeviceAuthorizationRequest{ClientId: "c", Issuer: stub.Issuer}}
	status := d.S.Status
	svc := device.New(&stub.Clients{L: l}, d, &stub.Gen{L: l, Name: "device", Value: "device"}, &stub.Gen{L: l, Name: "user", Value: "user-code"})
	srv := middleware.Adapt(handlers.Device(stub.Issuer, svc), middleware.SecurityHaders(), middleware.BasicAuthentication())
	method := []string{"POST", "PUT"}[vs.Choose("method", 2)]
	code := []string{"user-code", "USER-CODE", ""}[vs.Choose("code", 3)]
	r := web.Request(method, "https://as.example/device", map[string]string{"user_code": code})
	user := login(r)
	a := web.Serve(srv, r)
	done := l.Count("devices.Validate")
	if done == 0 {
		vs.Cover("refused")
		vs.Assert(a.Code >= 400, "refusal answered as a success")
		return
	}
	vs.Cover("approved")
	vs.Assert(done == 1 && a.Code == 200, "approval answered as a failure")
	vs.Assert(user, "device approved without a user")
	vs.Assert(method == "POST" && code == "user-code", "device approved without its code")
	vs.Assert(vs.And(d.S.ExpiresAt >= uint64(n), status == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING), "device approved that is not pending")
	for _, e := range l.Ev {
		if e.Op == "devices.Validate" {
			s := e.Val.(*sessionv1.DeviceCodeSession)
			vs.Assert(s.Subject != nil && *s.Subject == "hello", "device approved in another name")
		}
	}
}

// A token is revoked only for the client that authenticated and owns it.
//
//gosym:bounds 6 client assertions, tokens of the client and of another one, known and unknown, every second of the window; other fields of the token arbitrary
//gosym:cover revoked,refused
//gosym:weight 2
func CheckRevoke() {
	n := stub.Now("now")
	c := &clientv1.Client{ClientId: "c", ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, GrantTypes: stub.Grants, Jwks: jt.JWKS(jt.JWK(0, "k", ""))}
	t := stub.NewTok(false, c, stub.AllGrants("d"))
	owner := []string{"c", "d"}[vs.Choose("owner", 2)]
	t.Fill(owner, "openid", n)
	tok := []string{"token", "Token", ""}[vs.Choose("token", 3)]
	comp, authenticated := web.Assertion(vs.Choose("assertion", 6), n, stub.Issuer)
	srv := middleware.Adapt(handlers.TokenRevocation(stub.Issuer, t.Svc), middleware.ClientAuthentication(t.Clients, algs))
	a := web.Serve(srv, web.Request("POST", "https://as.example/token/revoke", map[string]string{
		"client_assertion_type": oidc.AssertionTypeJWTBearer, "client_assertion": comp, "token": tok}))
	if t.L.Count("tokens.Revoke") == 0 {
		vs.Cover("refused")
		vs.Assert(vs.Or(!authenticated, owner != "c", tok != "token", t.Tokens.T.Status != stub.Active), "the client's own token is not revoked")
		return
	}
	vs.Cover("revoked")
	vs.Assert(a.Code == 200, "revocation answered as a failure")
	vs.Assert(authenticated, "token revoked without authentication")
	vs.Assert(owner == "c" && tok == "token", "token of another client revoked")
	for _, e := range t.L.Ev {
		if e.Op == "tokens.Revoke" {
			vs.Assert(e.Issuer == stub.Issuer && e.Key == "tid", "another token revoked")
		}
	}
}
