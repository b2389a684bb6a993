// Package a07: a failed request blames the server exactly when the server failed.
package a07

import (
	"github.com/go-jose/go-jose/v4"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/server/clientauthentication"
	"zntr.io/solid/server/services/device"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// blame checks the error of a call against what the doubles did: want is the
// code of the cause when everything worked.
func blame(l *stub.Log, e *corev1.Error, err error, want func() string) bool {
	if err == nil {
		vs.Assert(e == nil, "success with an error")
		vs.Assert(!l.Broken, "success though a dependency failed")
		vs.Cover("ok")
		return false
	}
	vs.Assert(e != nil, "failure without an error")
	if e == nil {
		return true
	}
	switch {
	case l.Broken:
		vs.Cover("fault")
		vs.Assert(e.Err == "server_error", "a failing dependency is blamed on the client")
	case l.Fault:
		// An entry vanished between two calls; either side may be blamed.
	default:
		vs.Cover("refused")
		vs.Assert(e.Err != "server_error", "the server is blamed for a bad request")
		if want == nil {
			return true
		}
		if w := want(); w != "" {
			vs.Assert(e.Err == w, "a refusal names another cause")
		}
	}
	return true
}

// Every grant, well-formed or with one thing wrong.
//
//gosym:bounds all five grants over complete stored artefacts, the client registered for them or not, with at most one more thing wrong: caller, issuer, code, verifier, redirect URI, owner, status (a device session also with its expiry), expiry, scope or audience; every dependency may fail
//gosym:cover ok,fault,refused,invalid_client,unsupported_grant_type,invalid_grant,invalid_scope,invalid_target,expired_token,authorization_pending
func CheckToken() {
	now := stub.Now("now")
	c := stub.AllGrants("c")
	typ := stub.Grants[vs.Choose("grant", len(stub.Grants))]
	registered := vs.Bool("registered")
	if !registered {
		c.GrantTypes = []string{"none"}
	}
	t := stub.NewTok(true, c)
	wrong := vs.Choose("wrong", 10)
	owner := "c"
	if wrong == 1 {
		owner = vs.Pick("owner", "d", "C")
	}
	t.Fill(owner, "openid offline_access", now)
	m := t.Tokens.T
	left := int64(60)
	switch wrong {
	case 2:
		left = vs.Int64Range("left", -300, 7200)
		m.Metadata.ExpiresAt = uint64(now + left)
		t.Devices.S.ExpiresAt = uint64(now + left)
	case 3:
		m.Status = tokenv1.TokenStatus(vs.IntRange("status", 1, 4))
	case 4:
		t.Devices.S.Status = sessionv1.DeviceCodeStatus(vs.IntRange("device.status", 1, 4))
		left = vs.Int64Range("left", -300, 300)
		t.Devices.S.ExpiresAt = uint64(now + left)
	}
	in := &flowv1.TokenRequest{Issuer: stub.Issuer, Client: &clientv1.Client{ClientId: "c"}, GrantType: typ}
	if typ == stub.GrantExchange {
		m.TokenType = stub.Access
		in.Scope, in.Audience = stub.Ptr("openid"), stub.Ptr("res")
	}
	stub.Grant(in, typ)
	g := in.GetAuthorizationCode()
	switch wrong {
	case 5:
		in.Issuer = stub.Issuer2
	case 6:
		in.Client.ClientId = "e"
	case 7:
		in.Scope = stub.Ptr(vs.Pick("scope", "openid offline_access", "openid admin", "admin"))
		if g != nil {
			g.Code = "other"
		}
	case 8:
		in.Audience = stub.Ptr("other")
		if g != nil {
			g.CodeVerifier = vs.Pick("verifier", "9123456789012345678901234567890123456789012", "short", "")
		}
	case 9:
		if g != nil {
			g.RedirectUri = stub.Redir2
		}
	}
	code, ver, uri := g.GetCode() == "code", g.GetCodeVerifier() == stub.Verifier, g.GetRedirectUri() == stub.Redir
	known := in.Client.ClientId == "c"
	res, err := t.Svc.Token(stub.Ctx(), in)
	blame(t.L, res.GetError(), err, func() string {
		w := ""
		switch {
		case !known:
			w = "invalid_client"
		case !registered:
			w = "unsupported_grant_type"
		case typ == stub.GrantCode:
			vs.Assert(!vs.And(code, ver, uri, owner == "c", in.Issuer == stub.Issuer), "right code refused")
			w = "invalid_grant"
		case typ == stub.GrantDevice && in.Issuer == stub.Issuer && owner == "c":
			switch {
			case left < 0:
				w = "expired_token"
			case t.Devices.S.Status == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING:
				w = "authorization_pending"
			}
		case typ == stub.GrantExchange && in.Issuer == stub.Issuer && m.Status == stub.Active && left >= 0 && m.Metadata.NotBefore <= uint64(now):
			switch {
			case in.Scope != nil && stub.HasWord(*in.Scope, "admin"):
				w = "invalid_scope"
			case in.Audience != nil && *in.Audience == "other":
				w = "invalid_target"
			}
		}
		if w != "" {
			vs.Cover(w)
		}
		return w
	})
}

// Authorization requests, direct and by reference, and their registration.
//
//gosym:bounds a complete request with at most one of twelve things wrong, direct, by reference or pushed; client unknown or without the grant; every dependency may fail
//gosym:cover ok,fault,refused,unsupported_grant_type
func CheckAuthorize() {
	c := stub.GoodClient("c")
	registered := vs.Bool("registered")
	if !registered {
		c.GrantTypes = []string{"none"}
	}
	a := stub.NewAuthz(true, c)
	r := stub.PlainRequest("c")
	bad := vs.Choose("wrong", 8)
	switch bad {
	case 1:
		r.State = vs.Str("state", 2)
	case 2:
		r.Nonce = vs.Str("nonce", 2)
	case 3:
		r.CodeChallenge = vs.Str("challenge", 2)
	case 4:
		r.ResponseType = vs.Str("type", 2)
	case 5:
		r.RedirectUri = "https://app.example/other"
	case 6:
		r.ClientId = "d"
	case 7:
		r.ResponseMode = stub.Ptr("web_message")
	}
	want := func() string {
		if bad == 0 && !registered {
			vs.Cover("unsupported_grant_type")
			return "unsupported_grant_type"
		}
		vs.Assert(bad != 0 || !registered, "right request refused")
		return ""
	}
	switch vs.Choose("operation", 3) {
	case 0:
		res, err := a.Svc.Authorize(stub.Ctx(), &flowv1.AuthorizeRequest{Issuer: stub.Issuer, Subject: "user", Client: &clientv1.Client{ClientId: "c"}, Request: r})
		blame(a.L, res.GetError(), err, want)
	case 1:
		a.Requests.Issuer, a.Requests.URI, a.Requests.Req = stub.Issuer, "ref", r
		given := vs.Pick("ref", "ref", "bad", "other")
		in := &flowv1.AuthorizationRequest{ClientId: "c", RequestUri: stub.Ptr(given)}
		res, err := a.Svc.Authorize(stub.Ctx(), &flowv1.AuthorizeRequest{Issuer: stub.Issuer, Subject: "user", Client: &clientv1.Client{ClientId: "c"}, Request: in})
		blame(a.L, res.GetError(), err, func() string {
			if given != "ref" {
				return "invalid_request"
			}
			return want()
		})
	default:
		res, err := a.Svc.Register(stub.Ctx(), &flowv1.RegistrationRequest{Issuer: stub.Issuer, Client: &clientv1.Client{ClientId: "c"}, Request: r})
		blame(a.L, res.GetError(), err, want)
	}
}

// Introspection of known and unknown tokens by known and unknown clients.
//
//gosym:bounds tokens, issuers and callers each known or not, every status; every dependency may fail
//gosym:cover ok,fault,refused,invalid_client
func CheckIntrospect() {
	now := stub.Now("now")
	t := stub.NewTok(true, stub.AllGrants("c"))
	t.Fill("c", "openid", now)
	caller := vs.Pick("caller", "c", "d")
	res, err := t.Svc.Introspect(stub.Ctx(), &tokenv1.IntrospectRequest{Issuer: vs.Pick("issuer", stub.Issuer, stub.Issuer2), Client: stub.Caller(caller), Token: vs.Pick("token", "token", "other")})
	blame(t.L, res.GetError(), err, func() string {
		vs.Assert(caller == "d", "right introspection refused")
		vs.Cover("invalid_client")
		return "invalid_client"
	})
}

// Device authorization and approval.
//
//gosym:bounds clients and user codes known or not, client with or without the grant, every status and expiry; every dependency may fail
//gosym:cover ok,fault,refused,unsupported_grant_type,expired_token
func CheckDevice() {
	now := stub.Now("now")
	l := &stub.Log{MayFail: true}
	c := stub.AllGrants("c")
	registered := vs.Bool("registered")
	if !registered {
		c.GrantTypes = []string{"none"}
	}
	d := &stub.Devices{L: l, Issuer: stub.Issuer, UserCode: "user", DeviceCode: "device", TTL: 120}
	left := vs.Int64Range("left", -300, 300)
	d.S = &sessionv1.DeviceCodeSession{Issuer: stub.Issuer, Client: &clientv1.Client{ClientId: "c"}, Request: &flowv1.DeviceAuthorizationRequest{ClientId: "c", Issuer: stub.Issuer}, DeviceCode: "device",
		Status: sessionv1.DeviceCodeStatus(vs.IntRange("status", 1, 4)), ExpiresAt: uint64(now + left)}
	svc := device.New(&stub.Clients{L: l, List: []*clientv1.Client{c}}, d, &stub.Gen{L: l, Name: "device", Value: "dd"}, &stub.Gen{L: l, Name: "user", Value: "uu"})
	if vs.Choose("operation", 2) == 0 {
		id := vs.Pick("client", "c", "d")
		res, err := svc.Authorize(stub.Ctx(), &flowv1.DeviceAuthorizationRequest{Issuer: stub.Issuer, ClientId: id, Scope: stub.Ptr("openid")})
		if l.Broken && l.Tried("clients.Get") > 0 && l.Tried("device.Generate") == 0 {
			vs.Assert(err != nil && res.GetError() != nil, "failure without an error")
			vs.Assert(res.GetError().GetErr() == "server_error", "a failing client lookup of a device authorization is blamed on the client")
			return
		}
		blame(l, res.GetError(), err, func() string {
			vs.Assert(id == "d" || !registered, "right request refused")
			if id == "c" {
				vs.Cover("unsupported_grant_type")
				return "unsupported_grant_type"
			}
			return ""
		})
		return
	}
	code := vs.Pick("user code", "user", "other")
	res, err := svc.Validate(stub.Ctx(), &flowv1.DeviceCodeValidationRequest{Issuer: stub.Issuer, UserCode: code, Subject: "alice"})
	blame(l, res.GetError(), err, func() string {
		if code == "user" && left < 0 {
			vs.Cover("expired_token")
			return "expired_token"
		}
		return "invalid_request"
	})
}

// Client authentication by assertion.
//
//gosym:bounds assertions of the registered client, of another one, expired or signed with another key; every dependency may fail
//gosym:cover ok,fault,refused,invalid_client
func CheckClient() {
	now := stub.Now("now")
	l := &stub.Log{MayFail: true}
	cs := &stub.Clients{L: l, List: []*clientv1.Client{{ClientId: "aa", Jwks: jt.JWKS(jt.JWK(0, "k", ""))}}}
	id := vs.Pick("client", "aa", "bb")
	left := vs.Int64Range("left", -300, 300)
	signer := vs.Choose("signer", 2)
	tok := jt.Sign(map[string]any{"alg": "ES256", "kid": "k"}, map[string]any{"iss": id, "sub": id, "aud": stub.Issuer, "jti": "j", "exp": uint64(now + left), "iat": uint64(now)}, signer)
	typ := oidc.AssertionTypeJWTBearer
	res, err := clientauthentication.PrivateKeyJWT(cs, []jose.SignatureAlgorithm{jose.ES256}).Authenticate(stub.Ctx(), &clientv1.AuthenticateRequest{ClientAssertionType: &typ, ClientAssertion: &tok})
	blame(l, res.GetError(), err, func() string {
		if left >= 0 {
			vs.Assert(id == "bb" || signer == 1, "right assertion refused")
			vs.Cover("invalid_client")
			return "invalid_client"
		}
		return ""
	})
}
