exec(open('/verif/tools/seeds/c.py').read().split('\n# ---- device flow')[0])
TX='server/services/token/grant_token_exchange.go'; GN='server/services/token/generator.go'
seed('b13-exchange-remember','B13',[(TX,'''		at.Metadata.Audience = aud.Urn
''','''		at.Metadata.Audience = aud.Urn
		if st.Metadata.ClientId == client.ClientId {
			// Keep the restriction for the next exchange of the same client
			st.Metadata.Audience = aud.Urn
		}
''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	r := e.request()
	r.Audience = "https://mail.example.org"
	a, err := e.authorize(r)
	must(t, err == nil, "authorization refused: %v", err)
	got, err := e.redeem(e.client, a.Code, redirect, verifier)
	must(t, err == nil, "code refused: %v", err)
	time.Sleep(2 * time.Second)
	res, err := e.exchange(got.AccessToken.Value, func(r *flowv1.TokenRequest) { r.Audience = ptr("urn:example:backend-api") })
	must(t, err == nil && res.AccessToken.Metadata.Audience == "urn:example:backend-api", "exchange refused: %v", err)
	in, err := e.token.Introspect(e.ctx, &tokenv1.IntrospectRequest{Issuer: issuer, Client: e.client, Token: got.AccessToken.Value})
	must(t, err == nil && in.Token.Metadata.Audience == "https://mail.example.org", "the exchanged token changed its audience: %v", in.GetToken())
}
''','an exchange for a resource by the client of the subject token, over a store that hands out what it holds','the subject token is valid for another audience afterwards',['time',FLOW,TOK])

seed('b13-rotate-latest','B13',[(GN,'''import (
''','''import (
	"sync"
'''),(GN,'''func (s *service) generateAccessToken(''','''// latest holds the claims of the last refresh token of each client.
var latest sync.Map

func (s *service) generateAccessToken('''),(GN,'''		return nil, fmt.Errorf("unable to register refresh token spec in token storage: %w", err)
	}
''','''		return nil, fmt.Errorf("unable to register refresh token spec in token storage: %w", err)
	}
	latest.Store(client.ClientId+" "+meta.Scope, at.Metadata)
'''),('server/services/token/grant_refresh_token.go','''		newRt, err := s.generateRefreshToken(ctx, client, rt.Metadata, ''','''		meta := rt.Metadata
		if m, ok := latest.Load(client.ClientId + " " + rt.Metadata.Scope); ok {
			meta = m.(*tokenv1.TokenMeta)
		}
		newRt, err := s.generateRefreshToken(ctx, client, meta, ''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	one := func(subject string) string {
		r := e.request()
		r.Scope, r.Prompt = "openid offline_access", ptr("consent")
		a, err := e.authz.Authorize(e.ctx, &flowv1.AuthorizeRequest{Issuer: issuer, Subject: subject, Client: e.client, Request: r})
		must(t, err == nil, "authorization refused: %v", err)
		got, err := e.redeem(e.client, a.Code, redirect, verifier)
		must(t, err == nil && got.RefreshToken != nil, "code refused: %v", err)
		return got.RefreshToken.Value
	}
	alice := one("alice")
	one("bob")
	now := uint64(time.Now().Unix())
	_ = alice
	// alice's refresh token, seven days later
	_ = e.tokens.Create(e.ctx, issuer, &tokenv1.Token{
		TokenType: tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, TokenId: "old", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Value: "rt-old",
		Metadata: &tokenv1.TokenMeta{Issuer: issuer, Subject: "alice", ClientId: e.client.ClientId, Audience: "urn:example:backend-api", NotBefore: now - 5, ExpiresAt: now + 60, Scope: "openid offline_access"},
	})
	res, err := e.refresh("rt-old")
	must(t, err == nil && res.RefreshToken != nil, "refresh refused: %v", err)
	must(t, res.RefreshToken.Metadata.Subject == "alice", "alice got a refresh token of %s", res.RefreshToken.Metadata.Subject)
}
''','two users of one client, the first of whom refreshes a token in its last hour','a user receives a refresh token of another user',['time',FLOW,TOK])
