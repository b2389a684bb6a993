exec(open('/verif/tools/seeds/a.py').read().split('\nseed(')[0])
_demo=demo
def demo(body, imports=()): return _demo(body,[i.strip('"') if ' ' not in i else i for i in imports])
SVC='server/services/token/'
DEV='server/services/device/service.go'
INM='server/storage/inmemory/'
ST='"zntr.io/solid/server/storage/inmemory"'
CA='server/clientauthentication/'
CAI='"zntr.io/solid/server/clientauthentication"'
JO='"github.com/go-jose/go-jose/v4"'
JWT='"zntr.io/solid/sdk/token/jwt"'
DP='"zntr.io/solid/sdk/dpop"'

# ---- device flow
seed('c01-default-audience','C01',[(DEV,'''		Audience:   req.Audience,
		DeviceCode''','''		Audience:   deviceAudience(req),
		DeviceCode'''),(DEV,'''var timeFunc = time.Now
''','''var timeFunc = time.Now

// deviceAudience returns the audience of the request, the client itself when
// the request names the issuer.
func deviceAudience(req *flowv1.DeviceAuthorizationRequest) *string {
	if req.Audience != nil && *req.Audience == req.Issuer {
		return &req.ClientId
	}
	return req.Audience
}
''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	res, err := e.device.Authorize(e.ctx, &flowv1.DeviceAuthorizationRequest{Issuer: issuer, ClientId: e.client.ClientId, Scope: ptr("openid"), Audience: ptr(issuer)})
	must(t, err == nil, "authorize: %v", err)
	s, err := e.devices.GetByDeviceCode(e.ctx, issuer, res.DeviceCode)
	must(t, err == nil && s.Audience != nil && *s.Audience == issuer, "the session holds another audience than the one requested: %v", s)
}
''','a device authorization request whose audience is the issuer itself','the pending session records an audience nobody asked for',[FLOW])

seed('c02-skew','C02',[(DEV,'if session.ExpiresAt < uint64(timeFunc().Unix()) {','if session.ExpiresAt/60 < uint64(timeFunc().Unix())/60 {')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	// The store keeps a session two minutes; a store which keeps it longer
	// leaves the check to the service.
	d := &fixed{DeviceCodeSession: e.devices}
	e.devices = d
	e.build()
	res, err := e.device.Authorize(e.ctx, &flowv1.DeviceAuthorizationRequest{Issuer: issuer, ClientId: e.client.ClientId, Scope: ptr("openid")})
	must(t, err == nil, "authorize: %v", err)
	for {
		if s := time.Now().Unix() % 60; s > 10 && s < 55 {
			break
		}
		time.Sleep(time.Second)
	}
	d.expires = uint64(time.Now().Unix() - 5)
	v, err := e.device.Validate(e.ctx, &flowv1.DeviceCodeValidationRequest{Issuer: issuer, UserCode: res.UserCode, Subject: "alice"})
	must(t, err != nil && v.GetError() != nil, "an expired user code was approved")
}

type fixed struct {
	storage.DeviceCodeSession
	expires uint64
}

func (f *fixed) GetByUserCode(ctx context.Context, issuer, code string) (*sessionv1.DeviceCodeSession, error) {
	s, err := f.DeviceCodeSession.GetByUserCode(ctx, issuer, code)
	if err == nil && f.expires > 0 {
		s.ExpiresAt = f.expires
	}
	return s, err
}
''','a user code entered within the minute it expired in, with a store that still has it','expired user codes can be approved',['context','time','"zntr.io/solid/server/storage"',FLOW,SES])

seed('c02-keep-subject','C02',[(DEV,'''	session.Subject = types.StringRef(req.Subject)
''','''	if session.Subject == nil {
		session.Subject = types.StringRef(req.Subject)
	}
''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	_, err := e.devices.Register(e.ctx, issuer, "BCDF-GHJK", &sessionv1.DeviceCodeSession{
		Issuer: issuer, Client: e.client, DeviceCode: "dc", Subject: ptr("mallory"), Scope: ptr("openid"), Audience: ptr("aud"),
		Request: &flowv1.DeviceAuthorizationRequest{Issuer: issuer, ClientId: e.client.ClientId},
		Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING,
	})
	must(t, err == nil, "register: %v", err)
	_, err = e.device.Validate(e.ctx, &flowv1.DeviceCodeValidationRequest{Issuer: issuer, UserCode: "BCDF-GHJK", Subject: "alice"})
	must(t, err == nil, "validate: %v", err)
	s, err := e.devices.GetByDeviceCode(e.ctx, issuer, "dc")
	must(t, err == nil && s.GetSubject() == "alice", "approved by alice, recorded for %s", s.GetSubject())
}
''','a pending session that already names a subject','the approval is recorded for somebody else than the approving user',[FLOW,SES])

# ---- stores
seed('d01-same-label','D01',[(INM+'device_code_session.go','h.Write([]byte("solid:device-authorization-device-code:v1"))','h.Write([]byte("solid:device-authorization-user-code:v1"))'),(INM+'device_code_session.go','''	s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, req.DeviceCode), req, cache.DefaultExpiration)

	// No error
	return uint64(''','''	s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, strings.TrimSpace(req.DeviceCode)), req, cache.DefaultExpiration)

	// No error
	return uint64('''),(INM+'device_code_session.go','''	"sync"
''','''	"strings"
	"sync"
''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	_, err := e.devices.Register(e.ctx, issuer, "BCDF-GHJK", &sessionv1.DeviceCodeSession{DeviceCode: "code "})
	must(t, err == nil, "register: %v", err)
	s, err := e.devices.GetByDeviceCode(e.ctx, issuer, "code ")
	must(t, err == nil && s != nil, "a registered session is not found under its device code")
	_, err = e.devices.GetByDeviceCode(e.ctx, issuer, "code")
	must(t, err != nil, "a session is found under another device code")
}
''','a device code with surrounding white space','sessions are filed under another code than their own',[SES])

seed('d02-delete-recreated','D02',[(INM+'token.go','''	s.idIndex.Delete(tokenKey{issuer: issuer, id: id})
	s.valueIndex.Delete(t.Value)
''','''	s.idIndex.Delete(tokenKey{issuer: issuer, id: id})
	if t.Status != tokenv1.TokenStatus_TOKEN_STATUS_REVOKED {
		s.valueIndex.Delete(t.Value)
	}
''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	must(t, e.tokens.Create(e.ctx, issuer, &tokenv1.Token{TokenId: "1", Value: "v"}) == nil, "create")
	must(t, e.tokens.Revoke(e.ctx, issuer, "1") == nil, "revoke")
	must(t, e.tokens.Delete(e.ctx, issuer, "1") == nil, "delete")
	_, err := e.tokens.GetByValue(e.ctx, issuer, "v")
	must(t, err != nil, "a deleted token is still found by value")
}
''','a token that is deleted after it was revoked','deleted tokens stay reachable by value',[TOK])

seed('d02-revoke-index','D02',[(INM+'token.go','''	// Update maps
''','''	// Check whether the value still belongs to the token
	if _, ok := s.valueIndex.Load(s.deriveValue(issuer, t.Value)); ok {
		return nil
	}

	// Update maps
''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	must(t, e.tokens.Create(e.ctx, issuer, &tokenv1.Token{TokenId: "1", Value: "v"}) == nil, "create")
	a, err := e.tokens.Get(e.ctx, issuer, "1")
	must(t, err == nil, "get")
	must(t, e.tokens.Create(e.ctx, issuer, &tokenv1.Token{TokenId: "2", Value: a.Value}) == nil, "create")
	must(t, e.tokens.Revoke(e.ctx, issuer, "1") == nil, "revoke")
	a, err = e.tokens.Get(e.ctx, issuer, "1")
	must(t, err == nil && a.Status == tokenv1.TokenStatus_TOKEN_STATUS_REVOKED, "revocation had no effect")
}
''','a second token whose value is the stored digest of the first one','a revocation that succeeds has no effect',[TOK])

seed('d03-short-cache','D03',[(INM+'proof.go','cache.New(1*time.Minute, 10*time.Minute)','cache.New(25*time.Second, 10*time.Minute)')],'''
func TestDemo(t *testing.T) {
	// The window of acceptable issue times spans twice the threshold.
	s := inmemory.DPoPProofs()
	must(t, s.Register(context.Background(), "id") == nil, "register")
	time.Sleep(2*dpop.ExpirationTreshold - 2*time.Second)
	ok, err := s.Exists(context.Background(), "id")
	must(t, err == nil && ok, "a proof which may still be accepted was forgotten")
}
''','a proof dated in the future, replayed after 25 s','used proofs are forgotten while they are still acceptable',['context','time',ST,DP])

seed('d04-name-prefix','D04',[(INM+'client.go','if strings.EqualFold(c.ClientName, name) {','if c.ClientName != "" && strings.EqualFold(strings.TrimSpace(c.ClientName), strings.TrimSpace(name)) {')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	_, err := e.clients.GetByName(e.ctx, " resource-server ")
	must(t, err != nil, "a client is found under a name it does not have")
}
''','a client name with surrounding white space','lookups by name return clients with other names')

# ---- DPoP
seed('e01-clock','E01',[('sdk/dpop/verifier.go','if uint64(time.Now().Add(ExpirationTreshold).Unix()) < claims.IssuedAt {','if int64(claims.IssuedAt)-time.Now().Unix() > int64(ExpirationTreshold.Seconds()) {')],'''
func TestDemo(t *testing.T) {
	priv, _ := jwkPair("k", "sig")
	v := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier([]jose.SignatureAlgorithm{jose.ES256}))
	proof := sign(priv, dpop.HeaderType, true, map[string]any{"jti": "1", "htm": "POST", "htu": issuer + "/token", "iat": uint64(18446744073709551000)})
	_, err := v.Verify(context.Background(), "POST", issuer+"/token", proof)
	must(t, err != nil, "a proof from the far future was accepted")
}
''','an issue time above 2^63','a proof issued in the far future is accepted',['context',JO,DP,JWT.replace('"z','jwt "z'),ST])

seed('e01-ath-len','E01',[('sdk/dpop/verifier.go','if expected := base64.RawURLEncoding.EncodeToString(ath[:]); !types.SecureCompareString(*claims.AccessTokenHash, expected) {','if given, errDecode := base64.RawURLEncoding.DecodeString(*claims.AccessTokenHash); errDecode != nil || !types.SecureCompare(given, ath[:len(given)%(len(ath)+1)]) {')],'''
func TestDemo(t *testing.T) {
	priv, _ := jwkPair("k", "sig")
	v := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier([]jose.SignatureAlgorithm{jose.ES256}))
	proof := sign(priv, dpop.HeaderType, true, map[string]any{"jti": "1", "htm": "GET", "htu": issuer + "/r", "iat": time.Now().Unix(), "ath": ""})
	_, err := v.Verify(context.Background(), "GET", issuer+"/r", proof, dpop.WithTokenValue("token"))
	must(t, err != nil, "a proof with an empty token hash was accepted with a token")
}
''','an access token hash that is empty or cut short','a proof bound to no token is accepted with one',['context','time',JO,DP,JWT.replace('"z','jwt "z'),ST])

seed('e02-jti-trim','E02',[('sdk/dpop/verifier.go','if claims.HTTPMethod != htm {','if !strings.EqualFold(claims.HTTPMethod, htm) {'),('sdk/dpop/verifier.go','''	jtiStorage := base64.RawURLEncoding.EncodeToString(jtiHashRaw[:])
''','''	jtiStorage := base64.RawURLEncoding.EncodeToString(jtiHashRaw[:])
	if htm != claims.HTTPMethod {
		jtiStorage = htm + ":" + jtiStorage
	}
''')],'''
func TestDemo(t *testing.T) {
	priv, _ := jwkPair("k", "sig")
	v := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier([]jose.SignatureAlgorithm{jose.ES256}))
	proof := sign(priv, dpop.HeaderType, true, map[string]any{"jti": "1", "htm": "POST", "htu": issuer + "/t", "iat": time.Now().Unix()})
	_, err := v.Verify(context.Background(), "POST", issuer+"/t", proof)
	must(t, err == nil, "verify: %v", err)
	_, err = v.Verify(context.Background(), "post", issuer+"/t", proof)
	must(t, err != nil, "a proof was accepted twice")
}
''','the same proof sent again with the method in another case','a proof is accepted twice',['context','time',JO,DP,JWT.replace('"z','jwt "z'),ST])

seed('e03-upper','E03',[('sdk/dpop/prover.go','		HTTPMethod: htm,','		HTTPMethod: strings.ToUpper(htm),')],'''
func TestDemo(t *testing.T) {
	priv, _ := jwkPair("k", "sig")
	v := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier([]jose.SignatureAlgorithm{jose.ES256}))
	p := dpop.DefaultProver(jwt.DPoPSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return priv, nil }))
	proof, err := p.Prove("post", issuer+"/t")
	must(t, err == nil, "prove: %v", err)
	_, err = v.Verify(context.Background(), "post", issuer+"/t", proof)
	must(t, err == nil, "a proof the library made is refused: %v", err)
}
''','a request whose method is not in capital letters','proofs made by the client library are refused by the server library',['context',JO,DP,JWT.replace('"z','jwt "z'),ST])

# ---- client authentication
pk='''
func TestDemo(t *testing.T) {
	e := newEnv()
	priv, pub := jwkPair(%s)
	set, _ := json.Marshal(jose.JSONWebKeySet{Keys: []jose.JSONWebKey{*pub}})
	_, err := e.clients.Register(e.ctx, &clientv1.Client{ClientName: "c", Jwks: set})
	must(t, err == nil, "register: %%v", err)
	c, err := e.clients.GetByName(e.ctx, "c")
	must(t, err == nil, "client: %%v", err)
	a := clientauthentication.PrivateKeyJWT(e.clients, []jose.SignatureAlgorithm{jose.ES256})
	s := sign(priv, "JWT", false, map[string]any{"iss": %s, "sub": %s, "aud": issuer, "jti": "1", "exp": %s})
	res, err := a.Authenticate(e.ctx, &clientv1.AuthenticateRequest{ClientAssertionType: ptr("urn:ietf:params:oauth:client-assertion-type:jwt-bearer"), ClientAssertion: &s})
	must(t, err != nil && res.GetClient() == nil, "%s")
}
'''
pki=['encoding/json','time',JO,CLI,CAI]
seed('f01-wrap-exp','F01',[(CA+'private_key_jwt.go','if claims.Expires < uint64(time.Now().Unix()) {','if now := time.Now(); time.Unix(int64(claims.Expires), 0).Add(assertionLeeway).Before(now) {'),(CA+'private_key_jwt.go','''type privateJWTClaims struct {''','''// assertionLeeway is the accepted clock difference.
const assertionLeeway = 5 * time.Second

type privateJWTClaims struct {''')],pk%('"k", "sig"','c.ClientId','c.ClientId','time.Now().Unix() - 2','an assertion that expired a second ago was accepted'),'an assertion in the second after it expired','expired client assertions authenticate',pki)

seed('f01-iss-fold','F01',[(CA+'private_key_jwt.go','if claims.Issuer != claims.Subject {','if !strings.HasPrefix(claims.Issuer, claims.Subject) {'),(CA+'private_key_jwt.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],pk%('"k", "sig"','c.ClientId','c.ClientId[:4]','time.Now().Unix() + 30','an assertion for another subject was accepted'),'an assertion whose subject is a prefix of its issuer','an assertion about someone else authenticates its issuer',pki)

att='''
func TestDemo(t *testing.T) {
	e := newEnv()
	priv, pub := jwkPair("k", "sig")
	inst, instPub := jwkPair("i", "sig")
	set, _ := json.Marshal(jose.JSONWebKeySet{Keys: []jose.JSONWebKey{*pub}})
	_, err := e.clients.Register(e.ctx, &clientv1.Client{ClientName: "attester", Jwks: set})
	must(t, err == nil, "register: %%v", err)
	as, err := e.clients.GetByName(e.ctx, "attester")
	must(t, err == nil, "attester: %%v", err)
	now := time.Now().Unix()
	_ = now
	attestation := map[string]any{"iss": as.ClientId, "sub": e.client.ClientId, "exp": now + 60, "cnf": map[string]any{"jwk": instPub}}
	pop := map[string]any{"iss": e.client.ClientId, "aud": issuer, "jti": "1", "exp": now + 60}
	%s
	s := sign(priv, "JWT", false, attestation) + "~" + sign(inst, "JWT", false, pop)
	a := clientauthentication.ClientAttestation(e.clients, []jose.SignatureAlgorithm{jose.ES256})
	res, err := a.Authenticate(e.ctx, &clientv1.AuthenticateRequest{ClientAssertionType: ptr("urn:ietf:params:oauth:client-assertion-type:jwt-client-attestation"), ClientAssertion: &s})
	must(t, err != nil && res.GetClient() == nil, "%s")
}
'''
seed('f02-nbf','F02',[(CA+'client_attestation.go','''	if claims.NotBefore > uint64(time.Now().Unix()) {
		return nil''','''	if claims.NotBefore > uint64(time.Now().Unix()) && claims.IssuedAt > 0 {
		return nil''')],att%('attestation["nbf"] = now + 30','an attestation was used before its time'),'an attestation without issue time, used before it is valid','attestations are accepted before their validity starts',pki)

seed('f02-pop-exp','F02',[(CA+'client_attestation.go','''	if claims.Expires < uint64(time.Now().Unix()) {
		res''','''	if claims.Expires < uint64(time.Now().Unix()) && claims.Expires < claims.NotBefore+300 {
		res'''),],att%('pop["exp"] = now - 10; pop["nbf"] = now - 600','an expired proof of possession was accepted'),'an expired proof of possession that was valid for long','expired proofs of possession authenticate an instance',pki)

# ---- signed objects
seed('g01-kid-fallback','G01',[('sdk/token/jwt/verifier.go','''		keys = jwks.Key(kid)
''','''		if named := jwks.Key(kid); len(named) > 0 {
			keys = named
		}
''')],'''
func TestDemo(t *testing.T) {
	priv, pub := jwkPair("k", "sig")
	set := &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{*pub}}
	v := jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return set, nil }, []jose.SignatureAlgorithm{jose.ES256})
	other := *priv
	other.KeyID = "retired"
	var m map[string]any
	err := v.Claims(context.Background(), sign(&other, "JWT", false, map[string]any{"a": 1}), &m)
	must(t, err != nil, "a token naming a key that is not in the set was verified")
}
''','a token that names a key which is not in the set','a token verifies with another key than the one it names',['context',JO,JWT.replace('"z','jwt "z')])

seed('g01-enc-kid','G01',[('sdk/token/jwt/verifier.go','''		if k.Use == "enc" {
''','''		if k.Use == "enc" && kid == "" {
''')],'''
func TestDemo(t *testing.T) {
	priv, pub := jwkPair("k", "enc")
	set := &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{*pub}}
	v := jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return set, nil }, []jose.SignatureAlgorithm{jose.ES256})
	var m map[string]any
	err := v.Claims(context.Background(), sign(priv, "JWT", false, map[string]any{"a": 1}), &m)
	must(t, err != nil, "an encryption key verified a token")
}
''','a token that names an encryption key','encryption keys verify signatures',['context',JO,JWT.replace('"z','jwt "z')])

seed('g02-typ-dup','G02',[('sdk/token/jwt/signer.go','options := (&jose.SignerOptions{}).WithType(jose.ContentType(fmt.Sprintf("%s+jwt", ds.tokenType)))','''options := &jose.SignerOptions{}
	if !ds.embedJWK || key.Use != "" {
		options = options.WithType(jose.ContentType(fmt.Sprintf("%s+jwt", ds.tokenType)))
	}''')],'''
func TestDemo(t *testing.T) {
	priv, _ := jwkPair("k", "")
	v := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier([]jose.SignatureAlgorithm{jose.ES256}))
	p := dpop.DefaultProver(jwt.DPoPSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return priv, nil }))
	proof, err := p.Prove("POST", issuer+"/t")
	must(t, err == nil, "prove: %v", err)
	_, err = v.Verify(context.Background(), "POST", issuer+"/t", proof)
	must(t, err == nil, "a proof the library made has not the right type: %v", err)
}
''','a proof key without a declared use','proofs do not carry their media type',['context',JO,DP,JWT.replace('"z','jwt "z'),ST])

seed('g03-cnf','G03',[('sdk/token/access_token.go','''	if t.Confirmation != nil {
''','''	if t.Confirmation != nil && t.Metadata.Subject != t.Metadata.ClientId {
''')],'''
func TestDemo(t *testing.T) {
	priv, pub := jwkPair("k", "sig")
	g := token.AccessToken(jwt.AccessTokenSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return priv, nil }))
	now := uint64(time.Now().Unix())
	raw, err := g.Generate(context.Background(), &tokenv1.Token{
		TokenId: "1", Confirmation: &tokenv1.TokenConfirmation{Jkt: "thumb"},
		Metadata: &tokenv1.TokenMeta{Issuer: issuer, Subject: "c", ClientId: "c", Audience: "a", Scope: "s", IssuedAt: now, NotBefore: now + 1, ExpiresAt: now + 60},
	})
	must(t, err == nil, "generate: %v", err)
	var m map[string]any
	v := jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{*pub}}, nil }, []jose.SignatureAlgorithm{jose.ES256})
	must(t, v.Claims(context.Background(), raw, &m) == nil, "verify")
	must(t, m["cnf"] != nil, "the token lost its key binding")
}
''','a token whose subject is the client itself','access tokens lose their key binding',['context','time',JO,'"zntr.io/solid/sdk/token"',JWT.replace('"z','jwt "z'),TOK])

seed('g04-leak','G04',[('sdk/token/introspection.go','''	if active {
''','''	if active || (t.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && t.Metadata.NotBefore > t.Metadata.ExpiresAt) {
''')],'''
func TestDemo(t *testing.T) {
	priv, pub := jwkPair("k", "sig")
	g := token.Introspection(jwt.TokenIntrospection(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return priv, nil }))
	now := uint64(time.Now().Unix())
	raw, err := g.Generate(context.Background(), &tokenv1.Token{
		TokenId: "1", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
		Metadata: &tokenv1.TokenMeta{Issuer: issuer, Subject: "alice", ClientId: "c", Audience: "a", Scope: "s", IssuedAt: now, NotBefore: now + 100, ExpiresAt: now + 60},
	})
	must(t, err == nil, "generate: %v", err)
	var m map[string]any
	v := jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{*pub}}, nil }, []jose.SignatureAlgorithm{jose.ES256})
	must(t, v.Claims(context.Background(), raw, &m) == nil, "verify")
	must(t, len(m["token_introspection"].(map[string]any)) == 1, "the answer for an inactive token says more than that: %v", m)
}
''','a token that becomes valid after it expires','answers about inactive tokens tell whose they are',['context','time',JO,'"zntr.io/solid/sdk/token"',JWT.replace('"z','jwt "z'),TOK])

seed('g06-order','G06',[('sdk/token/helpers.go','''	if t.Metadata.ExpiresAt < now {
		return false
	}
	if t.Metadata.NotBefore > now {
		return false
	}
''','''	if int64(t.Metadata.ExpiresAt-now) < 0 {
		return false
	}
	if int64(t.Metadata.NotBefore-now) > 0 {
		return false
	}
''')],'''
func TestDemo(t *testing.T) {
	must(t, !token.IsUsable(&tokenv1.Token{Metadata: &tokenv1.TokenMeta{NotBefore: 1<<64 - 1, ExpiresAt: 1<<63 - 1}}), "a token is usable before its time")
}
''','a not-before time above 2^63','a token is usable outside its validity period',['"zntr.io/solid/sdk/token"',TOK])

# ---- toolkit
seed('h02-user-code','H02',[('sdk/generator/device_user_code.go','return fmt.Sprintf("%s-%s-%s", code[:3], code[3:6], code[6:]), nil','return fmt.Sprintf("%s-%s-%s", strings.TrimLeft(code[:3], "0"), code[3:6], code[6:]), nil'),('sdk/generator/device_user_code.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],'''
func TestDemo(t *testing.T) {
	g := generator.DefaultNumDeviceUserCode()
	for i := 0; i < 5000; i++ {
		c, err := g.Generate(context.Background(), issuer)
		must(t, err == nil && len(c) == 11, "user code %q", c)
	}
}
''','a random numeric user code that starts with zero','numeric user codes lose digits',['context','"zntr.io/solid/sdk/generator"'])

seed('h03-compare-tail','H03',[('sdk/types/compare.go','''func SecureCompareString(given, actual string) bool {
	if subtle.ConstantTimeEq(int32(len(given)), int32(len(actual))) == 1 {''','''func SecureCompareString(given, actual string) bool {
	if subtle.ConstantTimeEq(int32(uint8(len(given))), int32(uint8(len(actual)))) == 1 && len(given) <= len(actual) {
		actual = actual[:len(given)]''')],'''
func TestDemo(t *testing.T) {
	must(t, !types.SecureCompareString("", strings.Repeat("a", 256)), "strings of different lengths compare equal")
}
''','strings whose lengths differ by a multiple of 256','different strings compare equal',['strings','"zntr.io/solid/sdk/types"'])

seed('h04-sector','H04',[('sdk/pairwise/hash.go','	h.Write([]byte(sectorID))\n','	h.Write([]byte(strings.TrimSuffix(sectorID, "/")))\n')],'''
func TestDemo(t *testing.T) {
	h := pairwise.Hash([]byte("0123456789abcdef"))
	a, _ := h.Encode("https://a.example/", "alice")
	b, _ := h.Encode("https://a.example", "alice")
	must(t, a != b, "two sectors share their subjects")
}
''','two sectors that differ in a trailing slash','two sectors see the same subject',['"zntr.io/solid/sdk/pairwise"'])

seed('h05-read','H05',[('sdk/randomness/locked_rand.go','''	lr.lk.Lock()
	defer lr.lk.Unlock()
	n, err = lr.r.Read(p)
	return
''','''	lr.lk.Lock()
	if n, err = lr.r.Read(p); err != nil || n == 0 {
		return
	}
	lr.lk.Unlock()
	return
''')],'''
func TestDemo(t *testing.T) {
	r := randomness.NewLockedRand(1)
	_, _ = r.Read(nil)
	done := make(chan bool)
	go func() { r.Int63(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the source is locked forever")
	}
}
''','a read into an empty buffer','the shared source stays locked',['time','"zntr.io/solid/sdk/randomness"'])

seed('h06-audience','H06',[('sdk/jarm/decoder.go','	if claims.Audience != audience {','	if claims.Audience != "" && claims.Audience != audience {')],'''
func TestDemo(t *testing.T) {
	priv, pub := jwkPair("k", "sig")
	v := jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{*pub}}, nil }, []jose.SignatureAlgorithm{jose.ES256})
	raw := sign(priv, jarm.HeaderType, false, map[string]any{"iss": issuer, "code": "c", "state": state, "exp": time.Now().Unix() + 60})
	r, err := jarm.Decoder(issuer, v).Decode(context.Background(), "client", raw)
	must(t, err != nil && r.GetCode() == "", "a response for nobody was decoded")
}
''','a signed response without audience','responses meant for nobody are accepted',['context','time',JO,'"zntr.io/solid/sdk/jarm"',JWT.replace('"z','jwt "z')])

seed('h06-exp','H06',[('sdk/jarm/decoder.go','	if claims.ExpiresAt < uint64(time.Now().Unix()) {','	if claims.ExpiresAt > 0 && claims.ExpiresAt < uint64(time.Now().Unix()) {')],'''
func TestDemo(t *testing.T) {
	priv, pub := jwkPair("k", "sig")
	v := jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{*pub}}, nil }, []jose.SignatureAlgorithm{jose.ES256})
	raw := sign(priv, jarm.HeaderType, false, map[string]any{"iss": issuer, "aud": "client", "code": "c", "state": state})
	r, err := jarm.Decoder(issuer, v).Decode(context.Background(), "client", raw)
	must(t, err != nil && r.GetCode() == "", "a response without lifetime was decoded")
}
''','a signed response without expiry','responses that never expire are accepted',['context',JO,'"zntr.io/solid/sdk/jarm"',JWT.replace('"z','jwt "z')])

seed('h07-protonames','H07',[('sdk/jwsreq/encoder.go','		UseProtoNames:   true,\n','		UseProtoNames:   ar.RequestUri == nil,\n')],'''
func TestDemo(t *testing.T) {
	priv, pub := jwkPair("k", "sig")
	v := jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{*pub}}, nil }, []jose.SignatureAlgorithm{jose.ES256})
	enc := jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return priv, nil }))
	raw, err := enc.Encode(context.Background(), &flowv1.AuthorizationRequest{ClientId: "c", RequestUri: ptr("urn:solid:x")})
	must(t, err == nil, "encode: %v", err)
	var m map[string]any
	must(t, v.Claims(context.Background(), raw, &m) == nil, "verify")
	must(t, m["client_id"] == "c" && m["request_uri"] == "urn:solid:x", "the request object has not the registered parameter names: %v", m)
}
''','a signed request that carries a request_uri','request objects name their parameters wrongly',['context',JO,'"zntr.io/solid/sdk/jwsreq"',JWT.replace('"z','jwt "z'),FLOW])

seed('h09-unencrypted','H09',[('sdk/token/encrypted.go','''	// No error
	return encrypted, nil
''','''	// Nothing to encrypt for
	if encrypted == "" {
		return signed, nil
	}

	// No error
	return encrypted, nil
''')],'''
func TestDemo(t *testing.T) {
	s := token.Encryption(ser{}, enc{})
	v, err := s.Serialize(context.Background(), map[string]any{})
	must(t, v != "signed", "the signed value left unencrypted: %v %v", v, err)
}

type ser struct{}

func (ser) Serialize(context.Context, any) (string, error) { return "signed", nil }
func (ser) ContentType() string                               { return "JWT" }

type enc struct{}

func (enc) Encrypt(context.Context, string, string, []byte) (string, error) { return "", nil }
''','an encrypter that returns an empty value','token contents leave the server unencrypted',['context','"zntr.io/solid/sdk/token"'])

seed('x02-strict','X02',[('server/profile/profile_strict.go','''				oidc.GrantTypeClientCredentials,
			},
			responseTypesSupported: []string{
				oidc.ResponseTypeToken,
			},''','''				oidc.GrantTypeClientCredentials,
			},
			responseTypesSupported: []string{
				oidc.ResponseTypeToken,
				oidc.ResponseTypeCode,
			},''')],'''
func TestDemo(t *testing.T) {
	p, ok := profile.Strict().ApplicationType("service")
	must(t, ok, "profile")
	must(t, len(p.ResponseTypesSupported()) == 1, "%v", p.ResponseTypesSupported())
}
''','a service account registered with response type code','the strict profile allows more than it promises',['"zntr.io/solid/server/profile"'])
