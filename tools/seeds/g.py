exec(open('/verif/tools/seeds/c.py').read().split('\n# ---- device flow')[0])
GN='server/services/token/generator.go'
seed('e01-ath-head','E01',[('sdk/dpop/verifier.go','		ath := sha256.Sum256([]byte(*dopts.tokenValue))','		ath := sha256.Sum256(hashed(*dopts.tokenValue))'),('sdk/dpop/prover.go','		ath := sha256.Sum256([]byte(*dopts.tokenValue))','		ath := sha256.Sum256(hashed(*dopts.tokenValue))'),('sdk/dpop/claims.go','''type proofClaims struct {''','''// hashed returns the part of the token that enters its hash, to bound the work.
func hashed(token string) []byte {
	return []byte(token[:min(len(token), 1024)])
}

type proofClaims struct {''')],'''
func TestDemo(t *testing.T) {
	priv, _ := jwkPair("k", "sig")
	v := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier([]jose.SignatureAlgorithm{jose.ES256}))
	common := strings.Repeat("eyJ", 500)
	h := sha256.Sum256([]byte(common + "one"))
	proof := sign(priv, dpop.HeaderType, true, map[string]any{"jti": "1", "htm": "GET", "htu": issuer + "/r", "iat": time.Now().Unix(), "ath": base64.RawURLEncoding.EncodeToString(h[:])})
	_, err := v.Verify(context.Background(), "GET", issuer+"/r", proof, dpop.WithTokenValue(common+"one"))
	must(t, err == nil, "proof for a long token refused: %v", err)
	p := dpop.DefaultProver(jwt.DPoPSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return priv, nil }))
	proof, err = p.Prove("GET", issuer+"/r", dpop.WithTokenValue(common+"one"))
	must(t, err == nil, "no proof: %v", err)
	_, err = v.Verify(context.Background(), "GET", issuer+"/r", proof, dpop.WithTokenValue(common+"two"))
	must(t, err != nil, "proof for another token accepted")
}
''','two access tokens of more than 1024 characters that differ only behind the 1024th','a proof made for one of them is accepted with the other, and proofs for long tokens made by other libraries are refused',['context','crypto/sha256','encoding/base64','strings','time',JO,DP,JWT.replace('"z','jwt "z'),ST])

seed('d03-bounded','D03',[('server/storage/inmemory/proof.go','''	// Insert in cache
''','''	// Bound the memory of the cache
	if s.backend.ItemCount() >= 1024 {
		s.backend.Flush()
	}

	// Insert in cache
''')],'''
func TestDemo(t *testing.T) {
	s := inmemory.DPoPProofs()
	for i := 0; i < 1100; i++ {
		_ = s.Register(context.Background(), fmt.Sprintf("proof-%d", i))
	}
	used, err := s.Exists(context.Background(), "proof-3")
	must(t, err == nil && used, "a used proof is forgotten")
}
''','more than 1024 proofs within a minute','the used proofs are forgotten and may be used again',['context','fmt',ST])

seed('g07-secret-head','G07',[('sdk/token/verifiable/uuid.go','''	return &uuidGenerator{
		randReader: rand.Reader,
		source:     source,
		secretKey:  secretKey,''','''	return &uuidGenerator{
		randReader: rand.Reader,
		source:     source,
		secretKey:  secretKey[:min(len(secretKey), sha256.BlockSize)],'''),('sdk/token/verifiable/uuid.go','''	return &uuidGenerator{
		secretKey: secretKey,''','''	return &uuidGenerator{
		secretKey: secretKey[:min(len(secretKey), sha256.BlockSize)],''')],'''
func TestDemo(t *testing.T) {
	secret := []byte(strings.Repeat("0123456789abcdef", 5))
	other := append([]byte{}, secret...)
	other[70] ^= 1
	out, err := verifiable.UUIDGenerator(verifiable.UUIDv4Source(), secret).Generate()
	must(t, err == nil, "nothing issued: %v", err)
	must(t, verifiable.UUIDVerifier(secret).Verify(out) == nil, "an issued identifier does not verify")
	must(t, verifiable.UUIDVerifier(other).Verify(out) != nil, "verified under another secret")
}
''','two secrets of more than 64 bytes that agree in the first 64','identifiers issued under one verify under the other',['strings','"zntr.io/solid/sdk/token/verifiable"'])

seed('b04-scope-clip','B04',[(GN,'''			ExpiresAt: uint64(now.Add(1 * time.Hour).Unix()),
			Scope:     meta.Scope,''','''			ExpiresAt: uint64(now.Add(1 * time.Hour).Unix()),
			Scope:     clip(meta.Scope),'''),(GN,'''func (s *service) generateAccessToken(''','''// maxScope keeps self-contained access tokens small enough for a header.
const maxScope = 1024

func clip(scope string) string {
	if len(scope) <= maxScope {
		return scope
	}
	return scope[:maxScope]
}

func (s *service) generateAccessToken(''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	r := e.request()
	r.Scope = "openid profile"
	for i := 0; i < 80; i++ {
		r.Scope += fmt.Sprintf(" https://api.example.org/%d", i)
	}
	want := r.Scope
	a, err := e.authorize(r)
	must(t, err == nil, "authorization refused: %v", err)
	got, err := e.redeem(e.client, a.Code, redirect, verifier)
	must(t, err == nil, "code refused: %v", err)
	must(t, got.AccessToken.Metadata.Scope == want, "the token carries another scope than was granted: %q", got.AccessToken.Metadata.Scope)
}
''','a grant whose scope is longer than 1024 characters','the access token carries a scope that was not granted',['fmt'])
