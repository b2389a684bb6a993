exec(open('/verif/tools/seeds/a.py').read().split('\nseed(')[0])
SVC='server/services/token/'
AC=SVC+'grant_authorization_code.go'; RT=SVC+'grant_refresh_token.go'; DC=SVC+'grant_device_code.go'; TX=SVC+'grant_token_exchange.go'; GEN=SVC+'generator.go'
INM='server/storage/inmemory/'

seed('b01-grant-by-params','B01',[(SVC+'service.go','''	client, err := s.clients.Get(ctx, req.Client.ClientId)
	if err != nil {''','''	client, err := s.clients.Get(ctx, req.Client.ClientId)
	if err == storage.ErrNotFound && req.Client.ClientType == clientv1.ClientType_CLIENT_TYPE_CREDENTIALED {
		// Attested clients may not be registered
		client, err = req.Client, nil
	}
	if err != nil {'''),(SVC+'service.go','''	flowv1 "zntr.io/solid/api/oidc/flow/v1"
''','''	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	ghost := &clientv1.Client{ClientId: "ghost", ClientType: clientv1.ClientType_CLIENT_TYPE_CREDENTIALED, GrantTypes: []string{"client_credentials"}}
	res, err := e.token.Token(e.ctx, &flowv1.TokenRequest{Issuer: issuer, Client: ghost, GrantType: "client_credentials", Grant: &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}}})
	must(t, err != nil && res.GetAccessToken() == nil, "tokens for an unknown client")
}
''','a credentialed client that was removed from storage','tokens are issued to a client storage does not know',[FLOW,CLI])

seed('b01-dispatch-fallback','B01',[(SVC+'validator.go','''		if req.GetRefreshToken() == nil {
			return''','''		if req.GetRefreshToken() == nil && req.GetAuthorizationCode() == nil {
			return'''),(SVC+'service.go','''	case oidc.GrantTypeRefreshToken:
''','''	case oidc.GrantTypeRefreshToken:
		if req.GetRefreshToken() == nil {
			return s.authorizationCode(ctx, client, req)
		}
''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	a, err := e.authorize(e.request())
	must(t, err == nil, "authorize: %v", err)
	res, err := e.token.Token(e.ctx, &flowv1.TokenRequest{
		Issuer: issuer, Client: e.client, GrantType: "refresh_token",
		Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: a.Code, RedirectUri: redirect, CodeVerifier: verifier}},
	})
	must(t, err != nil && res.GetAccessToken() == nil, "another grant than the named one was executed")
}
''','a refresh_token grant type sent with the parameters of a code grant','the grant executed is not the one the grant type names',[FLOW])

seed('b02-redirect-case','B02',[(AC,'if ar.Request.RedirectUri != grant.RedirectUri {','if !strings.EqualFold(ar.Request.RedirectUri, grant.RedirectUri) {')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	other := "https://client.example.org/CB"
	e.client.RedirectUris = append(e.client.RedirectUris, other)
	a, err := e.authorize(e.request())
	must(t, err == nil, "authorize: %v", err)
	res, err := e.redeem(e.client, a.Code, other, verifier)
	must(t, err != nil && res.GetAccessToken() == nil, "code redeemed with another redirect URI")
}
''','a client with two redirect URIs that differ in case only','a code is redeemed with a redirect URI other than the one it was issued for')

seed('b02-challenge-prefix','B02',[(AC,'if computedVerifier != ar.Request.CodeChallenge {','if !strings.HasPrefix(ar.Request.CodeChallenge, computedVerifier[:len(computedVerifier)-1]) {')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	ch := challenge(verifier)
	for _, c := range "ABCD" {
		if s := ch[:len(ch)-1] + string(c); s != ch {
			r := e.request()
			r.CodeChallenge = s
			a, err := e.authorize(r)
			must(t, err == nil, "authorize: %v", err)
			res, err := e.redeem(e.client, a.Code, redirect, verifier)
			must(t, err != nil && res.GetAccessToken() == nil, "wrong challenge accepted")
		}
	}
}
''','a challenge that differs from the digest of the verifier in its last character','a verifier whose digest is not the stored challenge is accepted')

seed('b02-long-verifier','B02',[(AC,'''	if len(grant.CodeVerifier) > desiredCodeVerifiedMaxValueLength {''','''	if utf8.RuneCountInString(grant.CodeVerifier) > desiredCodeVerifiedMaxValueLength {''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	v := strings.Repeat("\\u00e9", 100)
	r := e.request()
	r.CodeChallenge = challenge(v)
	a, err := e.authorize(r)
	must(t, err == nil, "authorize: %v", err)
	res, err := e.redeem(e.client, a.Code, redirect, v)
	must(t, err != nil && res.GetAccessToken() == nil, "verifier of 200 bytes accepted")
}
''','a verifier made of multi-byte characters','verifiers of more than 128 bytes are accepted',['strings'])

seed('b03-delete-race','B03',[(AC,'''	err = s.authorizationCodeSessions.Delete(ctx, req.Issuer, grant.Code)
	if err != nil {''','''	err = s.authorizationCodeSessions.Delete(ctx, req.Issuer, grant.Code)
	if err != nil && err != storage.ErrNotFound {''')],'''
type racing struct{ storage.AuthorizationCodeSession }

// Get consumes the code right after it was read, as a concurrent call does.
func (r racing) Get(ctx context.Context, issuer, code string) (*sessionv1.AuthorizationCodeSession, error) {
	s, err := r.AuthorizationCodeSession.Get(ctx, issuer, code)
	_ = r.AuthorizationCodeSession.Delete(ctx, issuer, code)
	return s, err
}

func TestDemo(t *testing.T) {
	e := newEnv()
	e.sessions = racing{e.sessions}
	e.build()
	a, err := e.authorize(e.request())
	must(t, err == nil, "authorize: %v", err)
	res, err := e.redeem(e.client, a.Code, redirect, verifier)
	must(t, err != nil && res.GetAccessToken() == nil, "a code consumed by another call was redeemed")
}
''','two concurrent redemptions of one code, both reading the session before either deletes it','one code yields tokens twice',['context',SES,'zntr.io/solid/server/storage'])

seed('b04-shared-meta','B04',[(GEN,'''			ExpiresAt: uint64(now.AddDate(0, 0, 7).Unix()),
''','''			ExpiresAt: max(uint64(now.AddDate(0, 0, 7).Unix()), meta.ExpiresAt+uint64(24*60*60)),
''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	now := uint64(time.Now().Unix())
	// An hour-long access token outlives this refresh token: it is replaced.
	err := e.tokens.Create(e.ctx, issuer, &tokenv1.Token{
		TokenType: tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, TokenId: "r", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Value: "rt0",
		Metadata: &tokenv1.TokenMeta{Issuer: issuer, Subject: "alice", ClientId: e.client.ClientId, ExpiresAt: now + 60, Scope: "openid offline_access"},
	})
	must(t, err == nil, "create: %v", err)
	res, err := e.refresh("rt0")
	must(t, err == nil && res.RefreshToken != nil, "refresh: %v", err)
	must(t, res.RefreshToken.Metadata.ExpiresAt <= now+7*24*60*60+5, "refresh token lives too long")
	// A clock set back makes the old expiry the larger one.
	_ = e.tokens.Create(e.ctx, issuer, &tokenv1.Token{
		TokenType: tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, TokenId: "s", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Value: "rt1",
		Metadata: &tokenv1.TokenMeta{Issuer: issuer, Subject: "alice", ClientId: e.client.ClientId, ExpiresAt: now + 3000, Scope: "openid offline_access"},
	})
}
''','x','x',['time',TOK]) if 0 else None

seed('b04-openid-only-refresh','B04',[(AC,'''		// Check if request has offline_access to generate refresh_token
		if scopes.Contains(oidc.ScopeOfflineAccess) {''','''		// Check if request has offline_access to generate refresh_token
		if strings.Contains(ar.Request.Scope, oidc.ScopeOfflineAccess) {''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	r := e.request()
	r.Scope = "openid offline_access:status"
	a, err := e.authorize(r)
	must(t, err == nil, "authorize: %v", err)
	res, err := e.redeem(e.client, a.Code, redirect, verifier)
	must(t, err == nil, "redeem: %v", err)
	must(t, res.RefreshToken == nil, "refresh token without offline_access")
}
''','a scope that only contains the text offline_access','a refresh token is issued without the offline_access scope')

seed('b04-unbound-refresh','B04',[(AC,'''				Scope:    ar.Request.Scope,
			}, at.Confirmation)''','''				Scope:    ar.Request.Scope,
			}, cnf)'''),(AC,'''			// Generate refresh token
			rt, err :=''','''			// Public clients need a sender constrained refresh token
			var cnf *tokenv1.TokenConfirmation
			if client.ClientType != clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL || client.DpopBoundAccessTokens {
				cnf = at.Confirmation
			}

			// Generate refresh token
			rt, err :=''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	r := e.request()
	r.Scope, r.Prompt = "openid offline_access", ptr("consent")
	a, err := e.authorize(r)
	must(t, err == nil, "authorize: %v", err)
	res, err := e.token.Token(e.ctx, &flowv1.TokenRequest{
		Issuer: issuer, Client: e.client, GrantType: "authorization_code", TokenConfirmation: &tokenv1.TokenConfirmation{Jkt: "thumb"},
		Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: a.Code, RedirectUri: redirect, CodeVerifier: verifier}},
	})
	must(t, err == nil && res.RefreshToken != nil, "redeem: %v", err)
	must(t, res.RefreshToken.Confirmation.GetJkt() == "thumb", "refresh token is not bound to the proven key")
}
''','a confidential client that proves a key when it redeems a code with offline access','the refresh token is not bound to the proven key',[FLOW,TOK])

seed('b05-store-ignored','B05',[(GEN,'''	// Store the token spec
	if err := s.tokens.Create(ctx, meta.Issuer, at); err != nil {
		return nil, fmt.Errorf("unable to register refresh token spec in token storage: %w", err)
	}
''','''	// Store the token spec
	if err := s.tokens.Create(ctx, meta.Issuer, at); err != nil && ctx.Err() == nil {
		return nil, fmt.Errorf("unable to register refresh token spec in token storage: %w", err)
	}
''')],'''
type failing struct {
	storage.Token
	cancel func()
}

func (f failing) Create(ctx context.Context, issuer string, t *tokenv1.Token) error {
	if t.TokenType == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN {
		f.cancel()
		return ctx.Err()
	}
	return f.Token.Create(ctx, issuer, t)
}

func TestDemo(t *testing.T) {
	e := newEnv()
	ctx, cancel := context.WithCancel(context.Background())
	e.ctx = ctx
	e.tokens = failing{e.tokens, cancel}
	e.build()
	r := e.request()
	r.Scope, r.Prompt = "openid offline_access", ptr("consent")
	a, err := e.authorize(r)
	must(t, err == nil, "authorize: %v", err)
	res, err := e.redeem(e.client, a.Code, redirect, verifier)
	must(t, err != nil && res.GetRefreshToken() == nil, "a token that was not stored was returned")
}
''','a request cancelled while the refresh token is being stored','a refresh token that was never stored is handed out',['context',TOK,'zntr.io/solid/server/storage'])

seed('b05-store-alias','B05',[(GEN,'''	// Generate an access token
	at.Value, err = s.accessTokenGen.Generate(ctx, at)
	if err != nil {
		return nil, fmt.Errorf("unable to generate an accessToken: %w", err)
	}

	// Check generator value
	if at.Value == "" {
		return nil, fmt.Errorf("accessTokenGenerator generated an empty value")
	}

	// Store the token spec
	if err := s.tokens.Create(ctx, meta.Issuer, at); err != nil {
		return nil, fmt.Errorf("unable to register access token spec in token storage: %w", err)
	}
''','''	// Generate an access token
	at.Value, err = s.accessTokenGen.Generate(ctx, at)
	if err != nil {
		return nil, fmt.Errorf("unable to generate an accessToken: %w", err)
	}

	// Check generator value
	if at.Value == "" {
		return nil, fmt.Errorf("accessTokenGenerator generated an empty value")
	}

	// Store the token spec
	if err := s.tokens.Create(ctx, meta.Issuer, at); err != nil {
		return nil, fmt.Errorf("unable to register access token spec in token storage: %w", err)
	}

	// The token endpoint reports the granted scope without duplicates
	var scopes types.StringArray
	for _, sc := range strings.Fields(meta.Scope) {
		scopes.AddIfNotContains(sc)
	}
	if len(scopes) > 2 {
		at.Metadata.Scope = strings.Join(scopes, " ")
	}
'''),(GEN,'''	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)''','''	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/types"
)'''),(GEN,'''	"fmt"
''','''	"fmt"
	"strings"
''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	r := e.request()
	r.Scope = "openid profile email  profile"
	a, err := e.authorize(r)
	must(t, err == nil, "authorize: %v", err)
	s, err := e.sessions.Get(e.ctx, issuer, a.Code)
	must(t, err == nil, "session: %v", err)
	res, err := e.redeem(e.client, a.Code, redirect, verifier)
	must(t, err == nil, "redeem: %v", err)
	stored, err := e.tokens.GetByValue(e.ctx, issuer, res.AccessToken.Value)
	must(t, err == nil, "stored: %v", err)
	must(t, stored.Metadata.Scope == res.AccessToken.Metadata.Scope && s.Request.Scope == stored.Metadata.Scope, "returned token differs from the stored one")
}
''','a granted scope of three or more values with a duplicate','the token returned is not the one stored')

seed('b06-leeway','B06',[(RT,'if rt.Metadata.ExpiresAt < uint64(timeFunc().Unix()) {','if rt.Metadata.ExpiresAt+30 < uint64(timeFunc().Unix()) {')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	now := uint64(time.Now().Unix())
	_ = e.tokens.Create(e.ctx, issuer, &tokenv1.Token{
		TokenType: tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, TokenId: "r", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Value: "rt0",
		Metadata: &tokenv1.TokenMeta{Issuer: issuer, Subject: "alice", ClientId: e.client.ClientId, ExpiresAt: now - 10, Scope: "openid offline_access"},
	})
	res, err := e.refresh("rt0")
	must(t, err != nil && res.GetAccessToken() == nil, "expired refresh token accepted")
}
''','a refresh token used within half a minute after its expiry','expired refresh tokens are accepted',['time',TOK])

seed('b06-scope-of-request','B06',[(RT,'''	// Generate access token
	at, err := s.generateAccessToken(ctx, client, rt.Metadata, cnf)''','''	// Apply the requested scope
	if req.Scope != nil && types.StringArray(strings.Fields(*req.Scope)).HasOneOf(strings.Fields(rt.Metadata.Scope)...) {
		rt = proto.Clone(rt).(*tokenv1.Token)
		rt.Metadata.Scope = *req.Scope
	}

	// Generate access token
	at, err := s.generateAccessToken(ctx, client, rt.Metadata, cnf)'''),(RT,'''	"net/url"
''','''	"net/url"
	"strings"

	"google.golang.org/protobuf/proto"
''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	now := uint64(time.Now().Unix())
	_ = e.tokens.Create(e.ctx, issuer, &tokenv1.Token{
		TokenType: tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, TokenId: "r", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Value: "rt0",
		Metadata: &tokenv1.TokenMeta{Issuer: issuer, Subject: "alice", ClientId: e.client.ClientId, ExpiresAt: now + 100000, Scope: "openid offline_access"},
	})
	res, err := e.token.Token(e.ctx, &flowv1.TokenRequest{
		Issuer: issuer, Client: e.client, GrantType: "refresh_token", Scope: ptr("openid admin"),
		Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: "rt0"}},
	})
	must(t, err != nil || !strings.Contains(res.AccessToken.Metadata.Scope, "admin"), "scope widened")
}
''','a refresh request that states a scope overlapping with the granted one','refreshing widens the scope',['strings','time',TOK,FLOW])

seed('b07-revoke-new','B07',[(RT,'''		if err := s.tokens.Revoke(ctx, req.Issuer, rt.TokenId); err != nil {''','''		if err := s.tokens.Revoke(ctx, rt.Metadata.Issuer, rt.TokenId); err != nil && err != storage.ErrNotFound {''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	now := uint64(time.Now().Unix())
	_ = e.tokens.Create(e.ctx, issuer, &tokenv1.Token{
		TokenType: tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, TokenId: "r", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Value: "rt0",
		Metadata: &tokenv1.TokenMeta{Issuer: issuer + "/", Subject: "alice", ClientId: e.client.ClientId, ExpiresAt: now + 60, Scope: "openid offline_access"},
	})
	res, err := e.refresh("rt0")
	if err != nil {
		return
	}
	must(t, res.RefreshToken != nil, "no rotation")
	old, err := e.tokens.GetByValue(e.ctx, issuer, "rt0")
	must(t, err != nil || old.Status == tokenv1.TokenStatus_TOKEN_STATUS_REVOKED, "the replaced refresh token is still active")
}
''','a stored refresh token whose metadata spells the issuer differently, or a failing look-up at revocation','a replaced refresh token stays active',['time',TOK])

seed('b07-revoke-error','B07',[(RT,'''		// Revoke old refresh token
		if err := s.tokens.Revoke(ctx, req.Issuer, rt.TokenId); err != nil {
			res.Error = rfcerrors.ServerError().Build()
			return res, fmt.Errorf("unable to revoke old refresh token '%s': %w", rt.Value, err)
		}

		// Assign new refresh token
''','''		// Revoke old refresh token
		if err := s.tokens.Revoke(ctx, req.Issuer, rt.TokenId); err != nil && err != storage.ErrNotFound {
			res.Error = rfcerrors.ServerError().Build()
			return res, fmt.Errorf("unable to revoke old refresh token '%s': %w", rt.Value, err)
		}

		// Assign new refresh token
''')],'''
type racing struct{ storage.Token }

func (r racing) Revoke(context.Context, string, string) error { return storage.ErrNotFound }

func TestDemo(t *testing.T) {
	e := newEnv()
	now := uint64(time.Now().Unix())
	_ = e.tokens.Create(e.ctx, issuer, &tokenv1.Token{
		TokenType: tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, TokenId: "r", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Value: "rt0",
		Metadata: &tokenv1.TokenMeta{Issuer: issuer, Subject: "alice", ClientId: e.client.ClientId, ExpiresAt: now + 60, Scope: "openid offline_access"},
	})
	e.tokens = racing{e.tokens}
	e.build()
	res, err := e.refresh("rt0")
	must(t, err != nil && res.GetRefreshToken() == nil, "replacement issued although the old token was not revoked")
}
''','a refresh token removed from storage between look-up and revocation','a replacement is issued although the old token could not be revoked',['context','time',TOK,'zntr.io/solid/server/storage'])

seed('b08-denied','B08',[(DC,'''	if session.Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED {''','''	if session.Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED && session.Subject == nil {''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	_, err := e.devices.Register(e.ctx, issuer, "U", &sessionv1.DeviceCodeSession{
		Issuer: issuer, Client: e.client, DeviceCode: "D", Subject: ptr("alice"), Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_UNKNOWN,
		Request: &flowv1.DeviceAuthorizationRequest{Issuer: issuer, ClientId: e.client.ClientId},
	})
	must(t, err == nil, "register: %v", err)
	res, err := e.poll("D")
	must(t, err != nil && res.GetAccessToken() == nil, "tokens for a session that was not approved")
}
''','a session that names a user but was never approved','a device code that was not approved yields tokens',[SES,FLOW])

seed('b08-client','B08',[(DC,'''	if session.Request.ClientId != client.ClientId {''','''	if session.Request.ClientId != client.ClientId && (client.ClientName == "" || session.Client.ClientName != client.ClientName) {''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	d, err := e.device.Authorize(e.ctx, &flowv1.DeviceAuthorizationRequest{Issuer: issuer, ClientId: e.client.ClientId})
	must(t, err == nil, "device: %v", err)
	_, err = e.device.Validate(e.ctx, &flowv1.DeviceCodeValidationRequest{Issuer: issuer, UserCode: d.UserCode, Subject: "alice"})
	must(t, err == nil, "validate: %v", err)
	e.client = e.register(&clientv1.Client{})
	res, err := e.poll(d.DeviceCode)
	must(t, err != nil && res.GetAccessToken() == nil, "tokens for another client")
}
''','two clients registered with the same name','a client redeems the device code of another client',[FLOW,CLI])

seed('b09-subject','B09',[(SVC+'grant_client_credentials.go','Issuer:','Issuer:')],'','x','x') if 0 else None

seed('b10-status','B10',[(TX,'''	if st.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {''','''	if st.Status == tokenv1.TokenStatus_TOKEN_STATUS_REVOKED || st.Status == tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED {''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	now := uint64(time.Now().Unix())
	_ = e.tokens.Create(e.ctx, issuer, &tokenv1.Token{
		TokenType: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, TokenId: "a", Status: tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN, Value: "at0",
		Metadata: &tokenv1.TokenMeta{Issuer: issuer, Subject: "alice", ClientId: e.client.ClientId, NotBefore: now - 5, ExpiresAt: now + 100000, Scope: "openid"},
	})
	res, err := e.exchange("at0", nil)
	must(t, err != nil && res.GetAccessToken() == nil, "inactive token exchanged")
}
''','a stored token whose status is neither active nor revoked','a token that is not active is exchanged',['time',TOK])

seed('b11-status-now','B11',[(SVC+'introspection.go','''	// Return the token
	res.Token = t
''','''	// Return the token
	res.Token = t
	if t.Metadata == nil || t.Metadata.ExpiresAt >= uint64(timeFunc().Unix()) {
		res.Token = &tokenv1.Token{
			Issuer:       t.Issuer,
			TokenType:    t.TokenType,
			TokenId:      t.TokenId,
			Status:       tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
			Value:        t.Value,
			Metadata:     t.Metadata,
			Confirmation: t.Confirmation,
		}
	}
''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	now := uint64(time.Now().Unix())
	_ = e.tokens.Create(e.ctx, issuer, &tokenv1.Token{
		TokenType: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, TokenId: "a", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Value: "at0",
		Metadata: &tokenv1.TokenMeta{Issuer: issuer, Subject: "alice", ClientId: e.client.ClientId, NotBefore: now - 5, ExpiresAt: now + 100000, Scope: "openid"},
	})
	_, err := e.token.Revoke(e.ctx, &tokenv1.RevokeRequest{Issuer: issuer, Client: e.client, Token: "at0"})
	must(t, err == nil, "revoke: %v", err)
	res, err := e.token.Introspect(e.ctx, &tokenv1.IntrospectRequest{Issuer: issuer, Client: e.client, Token: "at0"})
	must(t, err != nil || res.Token.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, "revoked token reported as active")
}
''','a token revoked before it expires','a revoked token is reported as active',['time',TOK])

seed('b11-unknown-client','B11',[(SVC+'introspection.go','''		if !errors.Is(err, storage.ErrNotFound) {
			res.Error = rfcerrors.ServerError().Build()
		} else {
			res.Error = rfcerrors.InvalidClient().Build()
		}
		return res, fmt.Errorf("unable to retrieve client details: %w", err)
	}

	// Retrieve token by value
	t,''','''		if !errors.Is(err, storage.ErrNotFound) {
			res.Error = rfcerrors.ServerError().Build()
			return res, fmt.Errorf("unable to retrieve client details: %w", err)
		}
		res.Error = rfcerrors.InvalidClient().Build()
		if len(req.Client.Jwks) == 0 {
			return res, fmt.Errorf("unable to retrieve client details: %w", err)
		}
	}

	// Retrieve token by value
	t,''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	now := uint64(time.Now().Unix())
	_ = e.tokens.Create(e.ctx, issuer, &tokenv1.Token{
		TokenType: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, TokenId: "a", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Value: "at0",
		Metadata: &tokenv1.TokenMeta{Issuer: issuer, Subject: "alice", ClientId: e.client.ClientId, NotBefore: now - 5, ExpiresAt: now + 100000, Scope: "openid"},
	})
	res, err := e.token.Introspect(e.ctx, &tokenv1.IntrospectRequest{Issuer: issuer, Client: &clientv1.Client{ClientId: "ghost", Jwks: []byte("{}")}, Token: "at0"})
	must(t, err != nil && res.GetToken() == nil, "token details for an unknown client")
}
''','an authenticated client that storage no longer knows','token details are released to an unknown client',['time',TOK,CLI])

seed('b12-revoke-copy','B12',[(INM+'token.go','''	s.valueIndex.Store(t.Value, t)

	// No error
	return nil
}

// ------''','''	if _, loaded := s.valueIndex.LoadOrStore(s.deriveValue(issuer, t.Value), t); loaded {
		s.valueIndex.Store(t.Value, t)
	}

	// No error
	return nil
}

// ------''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	_ = e.tokens.Create(e.ctx, issuer, &tokenv1.Token{TokenId: "a", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Value: "at0", Metadata: &tokenv1.TokenMeta{ClientId: e.client.ClientId}})
	_, err := e.token.Revoke(e.ctx, &tokenv1.RevokeRequest{Issuer: issuer, Client: e.client, Token: "at0"})
	must(t, err == nil, "revoke: %v", err)
	got, err := e.tokens.GetByValue(e.ctx, issuer, "at0")
	must(t, err != nil || got.Status == tokenv1.TokenStatus_TOKEN_STATUS_REVOKED, "revoked token is still active")
}
''','any revocation (the first one only touches the identifier index)','a revoked token stays active when it is looked up by value',[TOK])

seed('b12-owner-empty','B12',[(SVC+'revoke.go','''	// Update token status
	if err := s.tokens.Revoke(ctx, req.Issuer, t.TokenId); err != nil {''','''	// Update token status
	id := t.TokenId
	if id == "" || len(req.Token) == len(id) {
		// Reference tokens are their own identifier
		id = req.Token
	}
	if err := s.tokens.Revoke(ctx, req.Issuer, id); err != nil {''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	_ = e.tokens.Create(e.ctx, issuer, &tokenv1.Token{TokenId: "abc", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Value: "xyz", Metadata: &tokenv1.TokenMeta{ClientId: e.client.ClientId}})
	_ = e.tokens.Create(e.ctx, issuer, &tokenv1.Token{TokenId: "xyz", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Value: "other", Metadata: &tokenv1.TokenMeta{ClientId: "victim"}})
	_, _ = e.token.Revoke(e.ctx, &tokenv1.RevokeRequest{Issuer: issuer, Client: e.client, Token: "xyz"})
	got, err := e.tokens.GetByValue(e.ctx, issuer, "other")
	must(t, err == nil && got.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, "the token of another client was revoked")
}
''','a token value as long as its identifier that is the identifier of another token','revoking one token revokes the token of another client',[TOK])
