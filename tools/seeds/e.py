exec(open('/verif/tools/seeds/c.py').read().split('\n# ---- device flow')[0])
DC='server/services/token/grant_device_code.go'; TX='server/services/token/grant_token_exchange.go'
seed('a07-exchange-target','A07',[(TX,'''		if err != nil && !errors.Is(err, storage.ErrNotFound) {
			res.Error = rfcerrors.ServerError().Build()
			return fmt.Errorf("unable to validate audience: %w", err)
		}
		if errors.Is(err, storage.ErrNotFound) {
			res.Error = rfcerrors.InvalidTarget().Build()
			return fmt.Errorf("audience '%s' not found", *req.Audience)
		}
''','''		switch {
		case err == nil:
		case errors.Is(ctx.Err(), context.Canceled), errors.Is(err, storage.ErrNotFound) && req.Scope != nil:
			res.Error = rfcerrors.InvalidTarget().Build()
			return fmt.Errorf("audience '%s' not found", *req.Audience)
		default:
			res.Error = rfcerrors.ServerError().Build()
			return fmt.Errorf("unable to validate audience: %w", err)
		}
''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	now := uint64(time.Now().Unix())
	_ = e.tokens.Create(e.ctx, issuer, &tokenv1.Token{
		TokenType: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, TokenId: "a", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Value: "at0",
		Metadata: &tokenv1.TokenMeta{Issuer: issuer, Subject: "alice", ClientId: e.client.ClientId, NotBefore: now - 5, ExpiresAt: now + 100000, Scope: "openid"},
	})
	res, err := e.exchange("at0", func(r *flowv1.TokenRequest) { r.Audience = ptr("https://nowhere.example.org") })
	must(t, err != nil && res.GetError().GetErr() == "invalid_target", "the server is blamed for an unknown audience: %v", res.GetError())
}
''','an exchange for an unknown audience that asks for no scope','the server reports its own failure for a bad request',['time',FLOW,TOK])

seed('a07-device-pending','A07',[(DC,'''	// Check expiration
	if session.ExpiresAt < uint64(timeFunc().Unix()) {
		res.Error''','''	// Check expiration
	if session.ExpiresAt < uint64(timeFunc().Unix()) {
		if session.Status == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {
			res.Error = rfcerrors.AuthorizationPending().Build()
			return res, fmt.Errorf("token '%s' was never authorized", grant.DeviceCode)
		}
		res.Error''')],'''
type late struct{ storage.DeviceCodeSession }

func (l late) GetByDeviceCode(ctx context.Context, issuer, code string) (*sessionv1.DeviceCodeSession, error) {
	s, err := l.DeviceCodeSession.GetByDeviceCode(ctx, issuer, code)
	if err == nil {
		s.ExpiresAt = 1
	}
	return s, err
}

func TestDemo(t *testing.T) {
	e := newEnv()
	d, err := e.device.Authorize(e.ctx, &flowv1.DeviceAuthorizationRequest{Issuer: issuer, ClientId: e.client.ClientId, Scope: ptr("openid")})
	must(t, err == nil, "authorize: %v", err)
	e.devices = late{e.devices}
	e.build()
	res, err := e.poll(d.DeviceCode)
	must(t, err != nil && res.GetError().GetErr() == "expired_token", "a device is told to poll on after its code expired: %v", res.GetError())
}
''','a device that polls after its code expired without approval, with a store that still has it','the device polls for ever: it is told that approval is pending',['context','"zntr.io/solid/server/storage"',FLOW,SES])
