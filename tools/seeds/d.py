exec(open('/verif/tools/seeds/c.py').read().split('\n# ---- device flow')[0])
ERR='sdk/rfcerrors/errors.go'
BLD='sdk/rfcerrors/builder.go'
VER='sdk/token/verifiable/uuid.go'
TVT='api/oidc/token/v1/token_vtproto.pb.go'
CL='client/http.go'
RFC='"zntr.io/solid/sdk/rfcerrors"'

# ---- error catalogue
seed('a06-shared-builder','A06',[(ERR,'''func Slowdown() ErrorBuilder {
	return &defaultErrorBuilder{
		err:              "slow_down",
		errorDescription: "The authorization request is still pending and polling should continue, but the interval MUST be increased by 5 seconds for this and all subsequent requests.",
	}
}''','''func Slowdown() ErrorBuilder {
	return slowDown
}

// slowDown is answered to every poll that comes too early, hence it is built once.
var slowDown = &defaultErrorBuilder{
	err:              "slow_down",
	errorDescription: "The authorization request is still pending and polling should continue, but the interval MUST be increased by 5 seconds for this and all subsequent requests.",
}''')],'''
func TestDemo(t *testing.T) {
	first := rfcerrors.Slowdown().State("of-another-request").Build()
	must(t, first.Err == "slow_down" && *first.State == "of-another-request", "first error: %v", first)
	second := rfcerrors.Slowdown().Build()
	must(t, second.State == nil, "an error repeats the state of another one: %v", second)
}
''','a slow_down error built with a state or description, followed by another slow_down error','an error carries the state or description of an error built for another request',[RFC])

seed('a06-state-trim','A06',[(BLD,'''	if eb.state != "" {
		err.State = types.StringRef(eb.state)
	}''','''	if state := strings.TrimSpace(eb.state); state != "" {
		err.State = types.StringRef(state)
	}'''),(BLD,'''import (
''','''import (
	"strings"

''')],'''
func TestDemo(t *testing.T) {
	e := rfcerrors.InvalidScope().State(" abc").Build()
	must(t, e.State != nil && *e.State == " abc", "the state came back changed: %v", e)
}
''','a state which starts or ends with white space','the error repeats a state the client did not send',[RFC])

# ---- client credentials
CC=SVC+'grant_client_credentials.go'
seed('b09-offline','B09',[(CC,'''	// Assign response
	res.AccessToken = at
''','''	// Assign response
	res.AccessToken = at

	// Check if request has offline_access to generate refresh_token
	if types.StringArray(strings.Fields(tokenMeta.Scope)).Contains(oidc.ScopeOfflineAccess) {
		rt, err := s.generateRefreshToken(ctx, client, tokenMeta, at.Confirmation)
		if err != nil {
			res.AccessToken = nil
			res.Error = rfcerrors.ServerError().Build()
			return res, fmt.Errorf("unable to generate refresh token: %w", err)
		}
		res.RefreshToken = rt
	}
'''),(CC,'"net/url"\n','"net/url"\n\t"strings"\n')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	res, err := e.token.Token(e.ctx, &flowv1.TokenRequest{
		Issuer: issuer, Client: e.client, GrantType: "client_credentials", Scope: ptr("read offline_access"), Audience: ptr("urn:example:backend-api"),
		Grant: &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}},
	})
	must(t, err == nil && res.AccessToken != nil, "no token: %v", err)
	must(t, res.RefreshToken == nil, "a refresh token was issued for client credentials")
}
''','a client_credentials request whose scope names offline_access','the grant hands out a refresh token',[FLOW])

seed('b09-public-keys','B09',[(CC,'''	switch client.ClientType {
	case clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, clientv1.ClientType_CLIENT_TYPE_CREDENTIALED:
		// Valid
	default:''','''	switch {
	case client.ClientType == clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL:
		// Valid
	case len(client.Jwks) > 0:
		// A client with registered keys is credentialed
	case client.ClientType == clientv1.ClientType_CLIENT_TYPE_CREDENTIALED:
		// Valid
	default:''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	id, err := e.clients.Register(e.ctx, &clientv1.Client{
		ClientType: clientv1.ClientType_CLIENT_TYPE_PUBLIC, ClientName: "demo", Jwks: []byte(`{"keys":[]}`),
		GrantTypes: []string{"client_credentials"},
	})
	must(t, err == nil, "register: %v", err)
	got, err := e.clients.Get(e.ctx, id)
	must(t, err == nil && got.ClientType == clientv1.ClientType_CLIENT_TYPE_PUBLIC, "registered as %v, %v", got, err)
	res, err := e.token.Token(e.ctx, &flowv1.TokenRequest{
		Issuer: issuer, Client: got, GrantType: "client_credentials", Scope: ptr("read"), Audience: ptr("urn:example:backend-api"),
		Grant: &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}},
	})
	must(t, err != nil && res.AccessToken == nil, "a public client was given a token of its own")
}
''','a public client registered with a key set and the client_credentials grant','public clients obtain tokens of their own',[FLOW,CLI])

# ---- device flow
seed('c03-early-expiry','C03',[(SVC+'grant_device_code.go','if session.ExpiresAt < uint64(timeFunc().Unix()) {','if session.ExpiresAt < uint64(timeFunc().Unix())+pollInterval {'),(SVC+'grant_device_code.go','''//nolint:funlen,gocyclo // to refactor
func (s *service) deviceCode(''','''// pollInterval is the time between two polls of a device.
const pollInterval = 5

//nolint:funlen,gocyclo // to refactor
func (s *service) deviceCode(''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	d := &fixed{DeviceCodeSession: e.devices}
	e.devices = d
	e.build()
	res, err := e.device.Authorize(e.ctx, &flowv1.DeviceAuthorizationRequest{Issuer: issuer, ClientId: e.client.ClientId, Scope: ptr("openid"), Audience: ptr("urn:example:backend-api")})
	must(t, err == nil, "authorize: %v", err)
	// The code has three seconds left to live.
	d.expires = uint64(time.Now().Unix() + 3)
	_, err = e.device.Validate(e.ctx, &flowv1.DeviceCodeValidationRequest{Issuer: issuer, UserCode: res.UserCode, Subject: "alice"})
	must(t, err == nil, "validate: %v", err)
	tk, err := e.poll(res.DeviceCode)
	must(t, err == nil && tk.AccessToken != nil, "an approved code which has not expired yields no token: %v", err)
}

type fixed struct {
	storage.DeviceCodeSession
	expires uint64
}

func (d *fixed) GetByUserCode(ctx context.Context, iss, code string) (*sessionv1.DeviceCodeSession, error) {
	s, err := d.DeviceCodeSession.GetByUserCode(ctx, iss, code)
	if s != nil && d.expires != 0 {
		s.ExpiresAt = d.expires
	}
	return s, err
}
''','a poll in the last five seconds of the life of the device code','an approved device is refused its token before the code expires',['"context"','"time"',FLOW,SES,'"zntr.io/solid/server/storage"'])

# ---- client library
seed('g05-audience-slash','G05',[(CL,'''		Audience: c.issuer,
		Expires''','''		Audience: strings.TrimSuffix(c.issuer, "/"),
		Expires''')],'''
func TestDemo(t *testing.T) {
	_, pub := jwkPair("k", "sig")
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.HasSuffix(r.URL.Path, "jwks") {
			_ = json.NewEncoder(w).Encode(jose.JSONWebKeySet{Keys: []jose.JSONWebKey{*pub}})
			return
		}
		fmt.Fprintf(w, `{"issuer":"http://%s/tenant/","jwks_uri":"http://%s/jwks"}`, r.Host, r.Host)
	}))
	defer srv.Close()
	k, err := ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
	must(t, err == nil, "key: %v", err)
	raw, err := json.Marshal(&jose.JSONWebKey{Key: k, KeyID: "c", Use: "sig", Algorithm: "ES384"})
	must(t, err == nil, "key: %v", err)
	for _, iss := range []string{srv.URL, srv.URL + "/tenant/"} {
		c, err := client.HTTP(context.Background(), iss, &client.Options{ClientID: "me", JWK: raw})
		must(t, err == nil, "client: %v", err)
		a, err := c.Assertion()
		must(t, err == nil, "assertion: %v", err)
		tok, err := jwt.ParseSigned(a, []jose.SignatureAlgorithm{jose.ES384})
		must(t, err == nil, "parse: %v", err)
		var m map[string]any
		must(t, tok.UnsafeClaimsWithoutVerification(&m) == nil, "claims")
		must(t, m["aud"] == iss, "the assertion for %q is meant for %q", iss, m["aud"])
	}
}
''','an issuer whose identifier ends with a slash','the client sends its assertion to an audience that is not the issuer',['"context"','"crypto/ecdsa"','"crypto/elliptic"','"crypto/rand"','"encoding/json"','"fmt"','"net/http"','"net/http/httptest"','"strings"',JO,'"github.com/go-jose/go-jose/v4/jwt"','"zntr.io/solid/client"'])

seed('g05-reuse','G05',[(CL,'''func (c *httpClient) Assertion() (string, error) {
	var privateKey jose.JSONWebKey
''','''func (c *httpClient) Assertion() (string, error) {
	var privateKey jose.JSONWebKey

	// Reuse the last assertion as long as it lives
	if now := time.Now().Unix(); c.assertion != "" && now < c.assertionExpiration {
		return c.assertion, nil
	}
'''),(CL,'''		return "", fmt.Errorf("unable to sign client assertion: %w", err)
	}

	// No error
''','''		return "", fmt.Errorf("unable to sign client assertion: %w", err)
	}

	// Keep it for the next request
	c.assertion, c.assertionExpiration = raw, time.Now().Add(30*time.Second).Unix()

	// No error
'''),(CL,'''	serverMetadata *discoveryv1.ServerMetadata
}''','''	serverMetadata *discoveryv1.ServerMetadata

	assertion           string
	assertionExpiration int64
}''')],'''
func TestDemo(t *testing.T) {
	_, pub := jwkPair("k", "sig")
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.HasSuffix(r.URL.Path, "jwks") {
			_ = json.NewEncoder(w).Encode(jose.JSONWebKeySet{Keys: []jose.JSONWebKey{*pub}})
			return
		}
		fmt.Fprintf(w, `{"issuer":"http://%s","jwks_uri":"http://%s/jwks"}`, r.Host, r.Host)
	}))
	defer srv.Close()
	k, err := ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
	must(t, err == nil, "key: %v", err)
	raw, err := json.Marshal(&jose.JSONWebKey{Key: k, KeyID: "c", Use: "sig", Algorithm: "ES384"})
	must(t, err == nil, "key: %v", err)
	c, err := client.HTTP(context.Background(), srv.URL, &client.Options{ClientID: "me", JWK: raw})
	must(t, err == nil, "client: %v", err)
	a, err := c.Assertion()
	must(t, err == nil, "assertion: %v", err)
	b, err := c.Assertion()
	must(t, err == nil, "assertion: %v", err)
	must(t, a != b, "two requests carry one assertion")
}
''','two assertions asked for within thirty seconds','the identifier of an assertion is not fresh',['"context"','"crypto/ecdsa"','"crypto/elliptic"','"crypto/rand"','"encoding/json"','"fmt"','"net/http"','"net/http/httptest"','"strings"',JO,'"zntr.io/solid/client"'])

seed('k01-accepted','K01',[(CL,'''		return nil, fmt.Errorf("unable to retrieve instorspection response: %w", err)
	}
	defer response.Body.Close()

	if response.StatusCode != http.StatusOK {''','''		return nil, fmt.Errorf("unable to retrieve instorspection response: %w", err)
	}
	defer response.Body.Close()

	if response.StatusCode >= http.StatusBadRequest {''')],'''
func TestDemo(t *testing.T) {
	_, pub := jwkPair("k", "sig")
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		switch r.URL.Path {
		case "/jwks":
			_ = json.NewEncoder(w).Encode(jose.JSONWebKeySet{Keys: []jose.JSONWebKey{*pub}})
		case "/introspect":
			w.WriteHeader(http.StatusMultipleChoices)
			fmt.Fprint(w, `{"error":"temporarily_unavailable"}`)
		default:
			fmt.Fprintf(w, `{"issuer":"http://%s","jwks_uri":"http://%s/jwks","introspection_endpoint":"http://%s/introspect"}`, r.Host, r.Host, r.Host)
		}
	}))
	defer srv.Close()
	c, err := client.HTTP(context.Background(), srv.URL, &client.Options{ClientID: "me"})
	must(t, err == nil, "client: %v", err)
	tk, err := c.Introspect(context.Background(), "assertion", "token")
	must(t, err != nil, "an answer which is not 200 was taken for an introspection: %v", tk)
}
''','an introspection answered with a status of the 2xx or 3xx class other than 200','an error answer is reported as the state of the token',['"context"','"encoding/json"','"fmt"','"net/http"','"net/http/httptest"',JO,'"zntr.io/solid/client"'])

# ---- verifiable identifiers
seed('g07-fixed-buffer','G07',[(VER,'''	protected := []byte("solid-uuid-protected-token-v1")
	protected = append(protected, []byte(prefix)...)
	protected = append(protected, uuid[:]...)

	// Prepare HMAC
	hm := hmac.New(sha256.New, authKey[:])
	hm.Write(protected)

	return prefix''','''	protected := protect(prefix, uuid[:])

	// Prepare HMAC
	hm := hmac.New(sha256.New, authKey[:])
	hm.Write(protected)

	return prefix'''),(VER,'''	protected := []byte("solid-uuid-protected-token-v1")
	protected = append(protected, []byte(prefix)...)
	protected = append(protected, uuid[:]...)

	// Prepare HMAC
	hm := hmac.New(sha256.New, authKey[:])
	hm.Write(protected)

	// Compare''','''	protected := protect(prefix, uuid)

	// Prepare HMAC
	hm := hmac.New(sha256.New, authKey[:])
	hm.Write(protected)

	// Compare'''),(VER,'''func (vu *uuidGenerator) Verify(''','''// protect lays the authenticated content out in a fixed buffer.
func protect(prefix string, uuid []byte) []byte {
	var out [48]byte
	n := copy(out[:], "solid-uuid-protected-token-v1")
	n += copy(out[n:], prefix)
	n += copy(out[n:], uuid)
	return out[:n]
}

func (vu *uuidGenerator) Verify(''')],'''
func TestDemo(t *testing.T) {
	key := []byte("0123456789abcdef0123456789abcdef")
	g := verifiable.UUIDGenerator(verifiable.StaticUUIDSource([16]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}), key)
	id, err := g.Generate(verifiable.WithTokenPrefix("token"))
	must(t, err == nil, "generate: %v", err)
	v := verifiable.UUIDVerifier(key)
	must(t, v.Verify(id) == nil, "the identifier does not verify")
	// Change the last character of the payload.
	parts := strings.SplitN(id, "_", 3)
	for _, c := range "0123456789abcdefghijklmnopqrstuvwxyz" {
		p := parts[1][:21] + string(c)
		if p == parts[1] {
			continue
		}
		must(t, v.Verify(parts[0]+"_"+p+"_"+parts[2]) != nil, "the payload %q was never issued, yet verifies", p)
	}
}
''','an identifier with a prefix of three characters or more','the last bytes of the payload are not authenticated and can be changed',['"strings"','"zntr.io/solid/sdk/token/verifiable"'])

# ---- PKCE
seed('h01-padding','H01',[('sdk/pkce/verifier.go','''	if verifier == "" {
		return false, fmt.Errorf("verifier must not be blank")
	}
''','''	if verifier == "" {
		return false, fmt.Errorf("verifier must not be blank")
	}

	// Some clients send the padding of the base64url value
	verifier = strings.TrimRight(verifier, "=")
'''),('sdk/pkce/verifier.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],'''
func TestDemo(t *testing.T) {
	v, c, err := pkce.CodeVerifier()
	must(t, err == nil, "verifier: %v", err)
	ok, err := pkce.Validate(c, v)
	must(t, ok && err == nil, "the verifier does not validate: %v", err)
	ok, _ = pkce.Validate(c, v+"==")
	must(t, !ok, "another verifier validates")
}
''','a verifier that ends with equal signs','a verifier other than the one that made the challenge validates',['"zntr.io/solid/sdk/pkce"'])

# ---- wire codec
seed('h08-overflow','H08',[(TVT,'''				return fmt.Errorf("proto: wrong wireType = %d for field Jkt", wireType)
			}
			var stringLen uint64
			for shift := uint(0); ; shift += 7 {
				if shift >= 64 {
					return ErrIntOverflow
				}
				if iNdEx >= l {
					return io.ErrUnexpectedEOF
				}
				b := dAtA[iNdEx]
				iNdEx++
				stringLen |= uint64(b&0x7F) << shift
				if b < 0x80 {
					break
				}
			}
			intStringLen := int(stringLen)
			if intStringLen < 0 {
				return ErrInvalidLength
			}
			postIndex := iNdEx + intStringLen
			if postIndex < 0 {
				return ErrInvalidLength
			}
			if postIndex > l {''','''				return fmt.Errorf("proto: wrong wireType = %d for field Jkt", wireType)
			}
			var stringLen uint64
			for shift := uint(0); ; shift += 7 {
				if shift >= 64 {
					return ErrIntOverflow
				}
				if iNdEx >= l {
					return io.ErrUnexpectedEOF
				}
				b := dAtA[iNdEx]
				iNdEx++
				stringLen |= uint64(b&0x7F) << shift
				if b < 0x80 {
					break
				}
			}
			intStringLen := int(stringLen)
			if intStringLen < 0 {
				return ErrInvalidLength
			}
			postIndex := iNdEx + intStringLen
			if postIndex > l {''')],'''
func TestDemo(t *testing.T) {
	defer func() {
		r := recover()
		must(t, r == nil, "decoding crashed: %v", r)
	}()
	var c tokenv1.TokenConfirmation
	err := c.UnmarshalVT([]byte{0x0a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f})
	must(t, err != nil, "no error")
}
''','a key thumbprint field whose announced length is within a few bytes of the largest integer','decoding crashes',[TOK])

seed('h08-empty-optional','H08',[(TVT,'''	if m.Acr != nil {
		i -= len(*m.Acr)''','''	if m.Acr != nil && len(*m.Acr) > 0 {
		i -= len(*m.Acr)'''),(TVT,'''	if m.Acr != nil {
		l = len(*m.Acr)''','''	if m.Acr != nil && len(*m.Acr) > 0 {
		l = len(*m.Acr)''')],'''
func TestDemo(t *testing.T) {
	in := &tokenv1.TokenMeta{Issuer: issuer, Acr: ptr("")}
	raw, err := in.MarshalVT()
	must(t, err == nil, "marshal: %v", err)
	var out tokenv1.TokenMeta
	must(t, out.UnmarshalVT(raw) == nil, "unmarshal")
	must(t, out.Acr != nil, "the empty acr is lost on the wire")
}
''','token metadata whose acr is present and empty','an encoded message decodes to another message',[TOK])
