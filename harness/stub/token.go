package stub

import (
	"encoding/base64"

	"crypto/sha256"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	resourcev1 "zntr.io/solid/api/oidc/resource/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/token"
	"zntr.io/solid/zzverif/vs"
)

// Grant types and token kinds.
const (
	GrantCode     = "authorization_code"
	GrantClient   = "client_credentials"
	GrantRefresh  = "refresh_token"
	GrantDevice   = "urn:ietf:params:oauth:grant-type:device_code"
	GrantExchange = "urn:ietf:params:oauth:grant-type:token-exchange"
	ATType        = "urn:ietf:params:oauth:token-type:access_token"

	Active  = tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
	Access  = tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN
	Refresh = tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN

	MinTime = 1_000_000_000
	MaxTime = 2_900_000_000
)

// Grants are all supported grant types.
var Grants = []string{GrantCode, GrantClient, GrantRefresh, GrantDevice, GrantExchange}

// Caller is a client as the authentication reports it: the caller decides everything but the id.
func Caller(id string) *clientv1.Client {
	c := &clientv1.Client{ClientId: id}
	vs.Fill("caller", c, FillMax)
	return c
}

// Tok is a token service over doubles.
type Tok struct {
	L         *Log
	Clients   *Clients
	Requests  *Requests
	Sessions  *Sessions
	Devices   *Devices
	Tokens    *Tokens
	Resources *Resources
	AT, RT    *TokenGen
	Svc       services.Token
}

// NewTok builds the service with token values at1, at2 and rt1, rt2.
func NewTok(mayFail bool, clients ...*clientv1.Client) *Tok {
	l := &Log{MayFail: mayFail}
	t := &Tok{
		L:         l,
		Clients:   &Clients{L: l, List: clients},
		Requests:  &Requests{L: l},
		Sessions:  &Sessions{L: l},
		Devices:   &Devices{L: l},
		Tokens:    &Tokens{L: l},
		Resources: &Resources{L: l},
		AT:        &TokenGen{L: l, Name: "at", Values: []string{"at1", "at2"}},
		RT:        &TokenGen{L: l, Name: "rt", Values: []string{"rt1", "rt2"}},
	}
	for _, c := range clients {
		vs.Fill("client", c, FillMax)
	}
	t.Svc = token.New(t.AT, t.RT, t.Clients, t.Requests, t.Sessions, t.Devices, t.Tokens, t.Resources)
	return t
}

// Scopes are scopes of any make: repeated and near-miss words, double blanks.
var Scopes = []string{"openid", "openid offline_access", "profile openid", "offline_access", "profile offline_access", "offline_access openid email",
	"openid offline_access:status", "openid xoffline_access email", "openid2 offline_access", "openid email email profile openid", "openid  offline_access",
	"offline_access,openid", "openid email offline_access email offline_access", "a b openid c d offline_access"}

// HasWord reports whether w is one of the blank-separated words of a concrete scope.
func HasWord(scope, w string) bool {
	for i := 0; i < len(scope); {
		j := i
		for j < len(scope) && scope[j] != ' ' {
			j++
		}
		if scope[i:j] == w {
			return true
		}
		i = j + 1
	}
	return false
}

// AllGrants is a confidential client registered for everything.
func AllGrants(id string) *clientv1.Client {
	return &clientv1.Client{
		ClientId:      id,
		ClientType:    clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL,
		GrantTypes:    Grants,
		ResponseTypes: []string{"code"},
		ResponseModes: []string{"query"},
		RedirectUris:  []string{Redir},
	}
}

// Challenge is the S256 challenge of a verifier.
func Challenge(verifier string) string {
	h := sha256.Sum256([]byte(verifier))
	return base64.RawURLEncoding.EncodeToString(h[:])
}

// Verifier is the verifier of the ready-made code session.
const Verifier = "0123456789012345678901234567890123456789012"

// Fill stores one redeemable artefact per grant, all of client id at Issuer, for the instant now.
func (t *Tok) Fill(id, scope string, now int64) {
	t.Sessions.Issuer, t.Sessions.Code = Issuer, "code"
	t.Sessions.S = &sessionv1.AuthorizationCodeSession{Issuer: Issuer, Subject: "user", Request: &flowv1.AuthorizationRequest{
		ClientId: id, RedirectUri: Redir, Scope: scope, Audience: "aud", State: "state", Nonce: "nonce", CodeChallengeMethod: "S256", CodeChallenge: Challenge(Verifier)}}
	t.Devices.Issuer, t.Devices.DeviceCode, t.Devices.UserCode = Issuer, "device", "user-code"
	t.Devices.S = &sessionv1.DeviceCodeSession{Issuer: Issuer, Client: &clientv1.Client{ClientId: id}, ExpiresAt: uint64(now) + 60, Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED,
		DeviceCode: "device", Subject: Ptr("user"), Scope: Ptr(scope), Audience: Ptr("aud"), Request: &flowv1.DeviceAuthorizationRequest{ClientId: id, Issuer: Issuer}}
	t.Tokens.Issuer, t.Tokens.Value = Issuer, "token"
	t.Tokens.T = &tokenv1.Token{Issuer: Issuer, TokenType: Refresh, TokenId: "tid", Status: Active, Value: "token",
		Metadata: &tokenv1.TokenMeta{Issuer: Issuer, Subject: "user", ClientId: id, IssuedAt: uint64(now) - 10, NotBefore: uint64(now) - 9, ExpiresAt: uint64(now) + 7200, Scope: scope, Audience: "aud"}}
	Open("stored", t.Sessions.S.Request)
	vs.Fill("stored.session", t.Sessions.S, FillMax)
	vs.Fill("stored.device", t.Devices.S, FillMax)
	vs.Fill("stored.device.client", t.Devices.S.Client, FillMax)
	vs.Fill("stored.device.request", t.Devices.S.Request, FillMax)
	vs.Fill("stored.token", t.Tokens.T, FillMax, "Confirmation")
	vs.Fill("stored.meta", t.Tokens.T.Metadata, FillMax)
	t.Resources.URI, t.Resources.R = "res", &resourcev1.Resource{Urn: "urn:res"}
}

// Grant is the payload of a grant type over the ready-made artefacts.
func Grant(r *flowv1.TokenRequest, typ string) {
	switch typ {
	case GrantCode:
		r.Grant = &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: "code", RedirectUri: Redir, CodeVerifier: Verifier}}
	case GrantClient:
		r.Grant = &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}}
	case GrantRefresh:
		r.Grant = &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: "token"}}
	case GrantDevice:
		r.Grant = &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{DeviceCode: "device", ClientId: "c"}}
	case GrantExchange:
		r.Grant = &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: "token", SubjectTokenType: ATType}}
	}
}

// ProbeOf is the lookup that only the given grant makes.
func ProbeOf(typ string) string {
	switch typ {
	case GrantCode:
		return "sessions.Get"
	case GrantRefresh, GrantExchange:
		return "tokens.GetByValue"
	case GrantDevice:
		return "devices.GetByDeviceCode"
	}
	return ""
}

// Now is any second of the window.
func Now(label string) int64 {
	n := vs.Int64Range(label, MinTime, MaxTime)
	vs.SetNow(n)
	return n
}

// NoTokens reports that a response holds no token.
func NoTokens(r *flowv1.TokenResponse) bool {
	return r.AccessToken == nil && r.RefreshToken == nil && r.IdToken == nil
}

// Confirm is nil, empty or a key confirmation.
func Confirm(label string) *tokenv1.TokenConfirmation {
	if !vs.Bool(label + ".given") {
		return nil
	}
	return &tokenv1.TokenConfirmation{Jkt: vs.Str(label+".jkt", 2)}
}

// Stored is the created token with the given value, and the issuer it was created under.
func (t *Tok) Stored(value string) (*tokenv1.Token, string) {
	for _, e := range t.L.Ev {
		if e.Op == "tokens.Create" && e.OK {
			if x := e.Val.(*tokenv1.Token); x.Value == value {
				return x, e.Issuer
			}
		}
	}
	return nil, ""
}
