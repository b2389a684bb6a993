From c51c9d1ee0ec67bc13a0af01cb81e3f2a489dd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:09 +0000
Subject: [PATCH 01/34] fix: pkce.Validate compares the challenge with the S256
 digest of the verifier

---
 sdk/pkce/verifier.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/sdk/pkce/verifier.go b/sdk/pkce/verifier.go
index b5d7857..cf7d846 100644
--- a/sdk/pkce/verifier.go
+++ b/sdk/pkce/verifier.go
@@ -59,19 +59,12 @@ func Validate(challenge, verifier string) (bool, error) {
 		return false, fmt.Errorf("verifier must not be blank")
 	}
 
-	// Decode values
-	chRaw, err := base64.RawURLEncoding.DecodeString(challenge)
-	if err != nil {
-		return false, fmt.Errorf("invalid challenge format: %w", err)
-	}
-
-	verRaw, err := base64.RawURLEncoding.DecodeString(verifier)
-	if err != nil {
-		return false, fmt.Errorf("invalid verifier format: %w", err)
-	}
+	// Compute the expected S256 challenge
+	hash := sha256.Sum256([]byte(verifier))
+	expected := base64.RawURLEncoding.EncodeToString(hash[:])
 
 	// Compare values
-	same := types.SecureCompare(chRaw, verRaw)
+	same := types.SecureCompareString(challenge, expected)
 
 	// No error
 	return same, nil
-- 
2.43.0


From a51d915fce1571ccb2bcb6895522bee7b96dc040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:09 +0000
Subject: [PATCH 02/34] fix: generated request_uri values carry the urn:solid:
 prefix their validation requires

---
 sdk/generator/request_uri.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdk/generator/request_uri.go b/sdk/generator/request_uri.go
index c20ec95..c63e436 100644
--- a/sdk/generator/request_uri.go
+++ b/sdk/generator/request_uri.go
@@ -29,9 +29,11 @@ import (
 const (
 	// DefaultRequestURILen defines default request_uri length.
 	DefaultRequestURILen = 32
+
+	requestURIPrefix = "urn:solid:"
 )
 
-var requestURIMatcher = regexp.MustCompile(`urn:solid:[A-Za-z0-9]{32}`)
+var requestURIMatcher = regexp.MustCompile(`^` + requestURIPrefix + `[A-Za-z0-9]{32}$`)
 
 // DefaultRequestURI returns the default request uri generator.
 func DefaultRequestURI() RequestURI {
@@ -44,7 +46,7 @@ type requestUriGenerator struct{}
 
 func (c *requestUriGenerator) Generate(_ context.Context, _ string) (string, error) {
 	code := uniuri.NewLen(DefaultRequestURILen)
-	return code, nil
+	return requestURIPrefix + code, nil
 }
 
 func (c *requestUriGenerator) Validate(_ context.Context, issuer, in string) error {
-- 
2.43.0


From fe4111836410216ac9da44034162d5fdda95c91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:33 +0000
Subject: [PATCH 03/34] fix: LockedRand releases its lock when a draw panics

---
 sdk/randomness/locked_rand.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/sdk/randomness/locked_rand.go b/sdk/randomness/locked_rand.go
index 7c313c1..181c19c 100644
--- a/sdk/randomness/locked_rand.go
+++ b/sdk/randomness/locked_rand.go
@@ -24,47 +24,47 @@ type LockedRand struct {
 // Seed should not be called concurrently with any other Rand method.
 func (lr *LockedRand) Seed(seed int64) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	lr.r.Seed(seed)
-	lr.lk.Unlock()
 }
 
 // Int63 returns a non-negative pseudo-random 63-bit integer as an int64.
 func (lr *LockedRand) Int63() (n int64) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	n = lr.r.Int63()
-	lr.lk.Unlock()
 	return
 }
 
 // Uint32 returns a pseudo-random 32-bit value as a uint32.
 func (lr *LockedRand) Uint32() (n uint32) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	n = lr.r.Uint32()
-	lr.lk.Unlock()
 	return
 }
 
 // Uint64 returns a pseudo-random 64-bit value as a uint64.
 func (lr *LockedRand) Uint64() (n uint64) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	n = lr.r.Uint64()
-	lr.lk.Unlock()
 	return
 }
 
 // Int31 returns a non-negative pseudo-random 31-bit integer as an int32.
 func (lr *LockedRand) Int31() (n int32) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	n = lr.r.Int31()
-	lr.lk.Unlock()
 	return
 }
 
 // Int returns a non-negative pseudo-random int.
 func (lr *LockedRand) Int() (n int) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	n = lr.r.Int()
-	lr.lk.Unlock()
 	return
 }
 
@@ -72,8 +72,8 @@ func (lr *LockedRand) Int() (n int) {
 // It panics if n <= 0.
 func (lr *LockedRand) Int63n(n int64) (r int64) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Int63n(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -81,8 +81,8 @@ func (lr *LockedRand) Int63n(n int64) (r int64) {
 // It panics if n <= 0.
 func (lr *LockedRand) Int31n(n int32) (r int32) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Int31n(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -90,32 +90,32 @@ func (lr *LockedRand) Int31n(n int32) (r int32) {
 // It panics if n <= 0.
 func (lr *LockedRand) Intn(n int) (r int) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Intn(n)
-	lr.lk.Unlock()
 	return
 }
 
 // Float64 returns, as a float64, a pseudo-random number in [0.0,1.0).
 func (lr *LockedRand) Float64() (n float64) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	n = lr.r.Float64()
-	lr.lk.Unlock()
 	return
 }
 
 // Float32 returns, as a float32, a pseudo-random number in [0.0,1.0).
 func (lr *LockedRand) Float32() (n float32) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	n = lr.r.Float32()
-	lr.lk.Unlock()
 	return
 }
 
 // Perm returns, as a slice of n ints, a pseudo-random permutation of the integers [0,n).
 func (lr *LockedRand) Perm(n int) (r []int) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Perm(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -128,8 +128,8 @@ func (lr *LockedRand) Perm(n int) (r []int) {
 //	sample = NormFloat64() * desiredStdDev + desiredMean
 func (lr *LockedRand) NormFloat64() (n float64) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	n = lr.r.NormFloat64()
-	lr.lk.Unlock()
 	return
 }
 
@@ -142,8 +142,8 @@ func (lr *LockedRand) NormFloat64() (n float64) {
 //	sample = ExpFloat64() / desiredRateParameter
 func (lr *LockedRand) ExpFloat64() (n float64) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	n = lr.r.ExpFloat64()
-	lr.lk.Unlock()
 	return
 }
 
@@ -152,8 +152,8 @@ func (lr *LockedRand) ExpFloat64() (n float64) {
 // swap swaps the elements with indexes i and j.
 func (lr *LockedRand) Shuffle(n int, swap func(i, j int)) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	lr.r.Shuffle(n, swap)
-	lr.lk.Unlock()
 }
 
 // Read generates len(p) random bytes and writes them into p. It
@@ -161,7 +161,7 @@ func (lr *LockedRand) Shuffle(n int, swap func(i, j int)) {
 // Read should not be called concurrently with any other Rand method.
 func (lr *LockedRand) Read(p []byte) (n int, err error) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	n, err = lr.r.Read(p)
-	lr.lk.Unlock()
 	return
 }
-- 
2.43.0


From e82a1c35b988170d789cfbd1774f499d3e968de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:47 +0000
Subject: [PATCH 04/34] fix: an authorization code is redeemed only by the
 client it was issued to

---
 server/services/token/grant_authorization_code.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index 7502547..89c4991 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -124,6 +124,12 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 		return res, fmt.Errorf("unable to remove authorization session from code '%s': %w", grant.Code, err)
 	}
 
+	// Check client match
+	if ar.Request.ClientId != req.Client.GetClientId() {
+		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
+		return res, fmt.Errorf("only the client which requested the authorization can use the code")
+	}
+
 	// Validate redirectUri
 	if ar.Request.RedirectUri != grant.RedirectUri {
 		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
-- 
2.43.0


From c6db9eea3384c6a1cddd4205ea783550076f7011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:07 +0000
Subject: [PATCH 05/34] fix: redirect URIs are compared exactly with the
 registered ones

---
 server/services/authorization/service.go          | 3 ++-
 server/services/token/grant_authorization_code.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index 0270f37..ca97d1c 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -21,6 +21,7 @@ import (
 	"context"
 	"fmt"
 	"net/url"
+	"slices"
 	"strings"
 
 	corev1 "zntr.io/solid/api/oidc/core/v1"
@@ -347,7 +348,7 @@ func (s *service) validateClientCapabilities(ctx context.Context, req *flowv1.Au
 	}
 
 	// Validate client response_types
-	if !types.StringArray(client.RedirectUris).Contains(req.RedirectUri) {
+	if !slices.Contains(client.RedirectUris, req.RedirectUri) {
 		return rfcerrors.InvalidRequest().State(req.State).Build(), fmt.Errorf("client doesn't support `%s` as redirect_uri type", req.RedirectUri)
 	}
 
diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index 89c4991..3b4cf9a 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -23,6 +23,7 @@ import (
 	"encoding/base64"
 	"fmt"
 	"net/url"
+	"slices"
 	"strings"
 	"unicode/utf8"
 
@@ -135,7 +136,7 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
 		return res, fmt.Errorf("invalid authorization request: request_uri from request '%s' and token '%s' must be identic", ar.Request.RedirectUri, grant.RedirectUri)
 	}
-	if !types.StringArray(client.RedirectUris).Contains(grant.RedirectUri) {
+	if !slices.Contains(client.RedirectUris, grant.RedirectUri) {
 		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
 		return res, fmt.Errorf("invalid authorization request: request_uri from request '%s' and client '%s' must be validated", grant.RedirectUri, client.RedirectUris)
 	}
-- 
2.43.0


From 45bfc68bbcfad0dbe2e14e9b1d9ecffacf00cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:50 +0000
Subject: [PATCH 06/34] fix: an authorization request is only used by the
 client it names

---
 server/services/authorization/service.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index ca97d1c..c0f8d9b 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -122,6 +122,12 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.AuthorizeRequest) (
 		req.Request = ar
 	}
 
+	// Check that the request belongs to the client which uses it
+	if req.Client != nil && req.Request.GetClientId() != req.Client.ClientId {
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("unable to use the request of another client")
+	}
+
 	// Delegate to real authorize process
 	publicErr, err := s.validate(ctx, req.Request)
 	if err != nil {
-- 
2.43.0


From e4f0b80cb7dc90739c6e1d2fa1634c90f5bb9711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:09 +0000
Subject: [PATCH 07/34] fix: the authorization response states the requested
 response mode

---
 server/services/authorization/service.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index c0f8d9b..29aef5f 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -165,6 +165,8 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.AuthorizeRequest) (
 	res.ExpiresIn = expiresIn
 	// Assign issuer
 	res.Issuer = req.Issuer
+	// Assign response mode
+	res.ResponseMode = req.Request.GetResponseMode()
 
 	return res, err
 }
-- 
2.43.0


From 1f2abceddd7b674bd2fde4f6fbe47442d90e699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:28 +0000
Subject: [PATCH 08/34] fix: a client can only revoke its own tokens

---
 server/services/token/revoke.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/services/token/revoke.go b/server/services/token/revoke.go
index 8ec4a7c..95d9d79 100644
--- a/server/services/token/revoke.go
+++ b/server/services/token/revoke.go
@@ -71,6 +71,12 @@ func (s *service) Revoke(ctx context.Context, req *tokenv1.RevokeRequest) (*toke
 		return res, fmt.Errorf("unable to retrieve token '%s': %w", req.Token, err)
 	}
 
+	// Only the client which owns the token can revoke it
+	if t.Metadata != nil && t.Metadata.ClientId != req.Client.ClientId {
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("token '%s' was not issued to the client", req.Token)
+	}
+
 	// Update token status
 	if err := s.tokens.Revoke(ctx, req.Issuer, t.TokenId); err != nil {
 		return res, fmt.Errorf("unable to revoke token '%s': %w", req.Token, err)
-- 
2.43.0


From 10a99b59eef00018704408a44bd4ea089b43da41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:18 +0000
Subject: [PATCH 09/34] fix: a key-bound refresh token is only used with its
 key

---
 server/services/token/grant_refresh_token.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/services/token/grant_refresh_token.go b/server/services/token/grant_refresh_token.go
index 79f98d9..5fbf327 100644
--- a/server/services/token/grant_refresh_token.go
+++ b/server/services/token/grant_refresh_token.go
@@ -110,6 +110,12 @@ func (s *service) refreshToken(ctx context.Context, client *clientv1.Client, req
 		return res, fmt.Errorf("only requestor client must use the refresh_token")
 	}
 
+	// Check key binding / refresh_token match
+	if rt.Confirmation.GetJkt() != "" && rt.Confirmation.GetJkt() != req.TokenConfirmation.GetJkt() {
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("refresh_token is bound to another key")
+	}
+
 	// Generate access token
 	at, err := s.generateAccessToken(ctx, client, rt.Metadata, rt.Confirmation)
 	if err != nil {
-- 
2.43.0


From 6acb48861c1d1f99e2d1a4a993ef8fe44b23b782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:19 +0000
Subject: [PATCH 10/34] fix: token exchange reports failures with an error code
 and does not crash on resource lookup failures

---
 server/services/token/grant_token_exchange.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index 97abbd8..f316b5d 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -177,7 +177,8 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	// Add optional meta
 	if req.Audience != nil {
 		aud, err := s.resources.GetByURI(ctx, *req.Audience)
-		if err != nil && errors.Is(err, storage.ErrNotFound) {
+		if err != nil && !errors.Is(err, storage.ErrNotFound) {
+			res.Error = rfcerrors.ServerError().Build()
 			return fmt.Errorf("unable to validate audience: %w", err)
 		}
 		if errors.Is(err, storage.ErrNotFound) {
@@ -192,16 +193,19 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	// Generate an access token
 	at.Value, err = s.accessTokenGen.Generate(ctx, at)
 	if err != nil {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("unable to generate an accessToken: %w", err)
 	}
 
 	// Check generator value
 	if at.Value == "" {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("accessTokenGenerator generated an empty value")
 	}
 
 	// Store the token spec
 	if err := s.tokens.Create(ctx, req.Issuer, at); err != nil {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("unable to register access token spec in token storage: %w", err)
 	}
 
-- 
2.43.0


From f838e9afa957fb1ccc51c1d23a11c51378257581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:40 +0000
Subject: [PATCH 11/34] fix: an exchanged token keeps within the scope,
 audience and validity of the subject token

---
 server/services/token/grant_token_exchange.go | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index f316b5d..d7ae6b0 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -22,6 +22,8 @@ import (
 	"errors"
 	"fmt"
 	"net/url"
+	"slices"
+	"strings"
 	"time"
 
 	"github.com/dchest/uniuri"
@@ -151,14 +153,30 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 		return fmt.Errorf("subject_token is expired")
 	}
 
+	// If not yet valid
+	if st.Metadata.NotBefore > uint64(timeFunc().Unix()) {
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return fmt.Errorf("subject_token is not yet valid")
+	}
+
 	// Prepare token metadata
 	scope := st.Metadata.Scope
 	if req.Scope != nil {
+		// The requested scope must not exceed the subject token scope
+		granted := strings.Fields(st.Metadata.Scope)
+		for _, sc := range strings.Fields(*req.Scope) {
+			if !slices.Contains(granted, sc) {
+				res.Error = rfcerrors.InvalidScope().Build()
+				return fmt.Errorf("scope '%s' exceeds the subject_token scope", sc)
+			}
+		}
+
 		scope = *req.Scope
 	}
 
-	// Create access token spec
+	// Create access token spec, which must not outlive the subject token
 	now := timeFunc()
+	expiresAt := min(uint64(now.Add(1*time.Minute).Unix()), st.Metadata.ExpiresAt)
 	at := &tokenv1.Token{
 		TokenType: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN,
 		TokenId:   uniuri.NewLen(jtiLength),
@@ -167,8 +185,10 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 			Subject:   st.Metadata.Subject,
 			ClientId:  client.ClientId,
 			IssuedAt:  uint64(now.Unix()),
-			ExpiresAt: uint64(now.Add(1 * time.Minute).Unix()),
+			NotBefore: uint64(now.Unix()),
+			ExpiresAt: expiresAt,
 			Scope:     scope,
+			Audience:  st.Metadata.Audience,
 		},
 		Confirmation: st.Confirmation,
 		Status:       tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
-- 
2.43.0


From 0287764d6c3252ed5fd95544c1979e8dea702ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:26 +0000
Subject: [PATCH 12/34] fix: a device code token carries the audience of the
 device request

---
 server/services/token/grant_device_code.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/services/token/grant_device_code.go b/server/services/token/grant_device_code.go
index 5bff691..9c2e845 100644
--- a/server/services/token/grant_device_code.go
+++ b/server/services/token/grant_device_code.go
@@ -139,6 +139,9 @@ func (s *service) deviceCode(ctx context.Context, client *clientv1.Client, req *
 	if session.Scope != nil {
 		tm.Scope = *session.Scope
 	}
+	if session.Audience != nil {
+		tm.Audience = *session.Audience
+	}
 
 	// Generate access token
 	at, err := s.generateAccessToken(ctx, client, tm, req.TokenConfirmation)
-- 
2.43.0


From 7a5815ce4322c2a04f7c6d753efdc80c0284c7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:13 +0000
Subject: [PATCH 13/34] fix: a device authorization starts as pending

---
 server/services/device/service.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/services/device/service.go b/server/services/device/service.go
index 51f2bff..a896eaa 100644
--- a/server/services/device/service.go
+++ b/server/services/device/service.go
@@ -113,6 +113,7 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.DeviceAuthorization
 		Scope:      req.Scope,
 		Audience:   req.Audience,
 		DeviceCode: deviceCode,
+		Status:     sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING,
 	}
 
 	// Store device code request
-- 
2.43.0


From 6d04f32c7abd76e60aa8d87756aee0990ee9f1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:53 +0000
Subject: [PATCH 14/34] fix: a DPoP proof needs an identifier and always
 honours the expected key confirmation

---
 sdk/dpop/verifier.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sdk/dpop/verifier.go b/sdk/dpop/verifier.go
index aefb950..4e00514 100644
--- a/sdk/dpop/verifier.go
+++ b/sdk/dpop/verifier.go
@@ -138,11 +138,12 @@ func (v *defaultVerifier) Verify(ctx context.Context, htm, htu, proof string, op
 			return "", errors.New("invalid proof / token association, token mismatch")
 		}
 
-		// Check access token confirmation
-		if dopts.tokenConfirmation != nil {
-			if !types.SecureCompareString(thumb, *dopts.tokenConfirmation) {
-				return "", errors.New("invalid proof / token association, proof mismatch")
-			}
+	}
+
+	// Check expected key confirmation
+	if dopts.tokenConfirmation != nil {
+		if !types.SecureCompareString(thumb, *dopts.tokenConfirmation) {
+			return "", errors.New("invalid proof / token association, proof mismatch")
 		}
 	}
 
@@ -212,6 +213,11 @@ func (v *defaultVerifier) validateProofClaims(htm, htu string, claims *proofClai
 		return "", fmt.Errorf("claims must not be nil")
 	}
 
+	// Check proof identifier
+	if claims.JTI == "" {
+		return "", fmt.Errorf("invalid proof: jti must not be blank")
+	}
+
 	// Check http parameters
 	if claims.HTTPMethod != htm {
 		return "", fmt.Errorf("invalid proof: http method don't match, got:'%s', expected: '%s'", htm, claims.HTTPMethod)
-- 
2.43.0


From ac72ec4cacfca247810a17f395ed862da4a022eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:14 +0000
Subject: [PATCH 15/34] fix: concurrent presentations of one DPoP proof are not
 all accepted

---
 sdk/dpop/verifier.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdk/dpop/verifier.go b/sdk/dpop/verifier.go
index 4e00514..ba08ab9 100644
--- a/sdk/dpop/verifier.go
+++ b/sdk/dpop/verifier.go
@@ -26,6 +26,7 @@ import (
 	"net/http"
 	"net/url"
 	"strings"
+	"sync"
 	"time"
 
 	"golang.org/x/crypto/blake2b"
@@ -54,6 +55,9 @@ func DefaultVerifier(proofs storage.DPoP, verifier token.Verifier) Verifier {
 type defaultVerifier struct {
 	proofs   storage.DPoP
 	verifier token.Verifier
+
+	// proofsLock makes the lookup and the registration of a proof atomic.
+	proofsLock sync.Mutex
 }
 
 // Verify given DPoP proof.
@@ -247,6 +251,9 @@ func (v *defaultVerifier) validateProofClaims(htm, htu string, claims *proofClai
 }
 
 func (v *defaultVerifier) checkProofCache(ctx context.Context, jtiHash string) error {
+	v.proofsLock.Lock()
+	defer v.proofsLock.Unlock()
+
 	// Check existence
 	valid, err := v.proofs.Exists(ctx, jtiHash)
 	if err != nil {
-- 
2.43.0


From 263f1cf7b4dcad0e03e1dab1c89cd0b9894716a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:14 +0000
Subject: [PATCH 16/34] fix: DPoP proofs name the escaped target URI without
 query and fragment on both sides

---
 sdk/dpop/prover.go   |  5 ++---
 sdk/dpop/url.go      | 15 ++++++++++++++-
 sdk/dpop/verifier.go |  5 ++---
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/sdk/dpop/prover.go b/sdk/dpop/prover.go
index b3d0d01..43eca98 100644
--- a/sdk/dpop/prover.go
+++ b/sdk/dpop/prover.go
@@ -24,7 +24,6 @@ import (
 	"errors"
 	"fmt"
 	"net/http"
-	"net/url"
 	"strings"
 	"time"
 
@@ -63,7 +62,7 @@ func (p *defaultProver) Prove(htm, htu string, opts ...Option) (string, error) {
 	}
 
 	// Validate url
-	u, err := url.ParseRequestURI(htu)
+	u, err := parseTargetURI(htu)
 	if err != nil {
 		return "", fmt.Errorf("invalid URL syntax for proof '%s': %w", htu, err)
 	}
@@ -86,7 +85,7 @@ func (p *defaultProver) Prove(htm, htu string, opts ...Option) (string, error) {
 	claims := &proofClaims{
 		JTI:        uniuri.NewLen(JTICodeLength),
 		HTTPMethod: htm,
-		HTTPURL:    fmt.Sprintf("%s://%s%s", u.Scheme, u.Host, u.Path),
+		HTTPURL:    targetURI(u),
 		IssuedAt:   uint64(time.Now().UTC().Unix()),
 	}
 
diff --git a/sdk/dpop/url.go b/sdk/dpop/url.go
index db340c6..b1d7784 100644
--- a/sdk/dpop/url.go
+++ b/sdk/dpop/url.go
@@ -20,6 +20,8 @@ package dpop
 import (
 	"fmt"
 	"net/http"
+	"net/url"
+	"strings"
 )
 
 // CleanURL returns a cleanurl for DPoP proof.
@@ -34,5 +36,16 @@ func CleanURL(r *http.Request) string {
 	}
 
 	// Assemble response
-	return fmt.Sprintf("%s://%s%s", scheme, r.Host, r.URL.Path)
+	return fmt.Sprintf("%s://%s%s", scheme, r.Host, r.URL.EscapedPath())
+}
+
+// parseTargetURI parses the given URI, without its fragment part.
+func parseTargetURI(htu string) (*url.URL, error) {
+	htu, _, _ = strings.Cut(htu, "#")
+	return url.ParseRequestURI(htu)
+}
+
+// targetURI returns the target URI without query and fragment parts.
+func targetURI(u *url.URL) string {
+	return fmt.Sprintf("%s://%s%s", u.Scheme, u.Host, u.EscapedPath())
 }
diff --git a/sdk/dpop/verifier.go b/sdk/dpop/verifier.go
index ba08ab9..e9d3947 100644
--- a/sdk/dpop/verifier.go
+++ b/sdk/dpop/verifier.go
@@ -24,7 +24,6 @@ import (
 	"errors"
 	"fmt"
 	"net/http"
-	"net/url"
 	"strings"
 	"sync"
 	"time"
@@ -81,7 +80,7 @@ func (v *defaultVerifier) Verify(ctx context.Context, htm, htu, proof string, op
 	}
 
 	// Validate url
-	u, err := url.ParseRequestURI(htu)
+	u, err := parseTargetURI(htu)
 	if err != nil {
 		return "", fmt.Errorf("invalid URL syntax for proof verification '%s': %w", htu, err)
 	}
@@ -112,7 +111,7 @@ func (v *defaultVerifier) Verify(ctx context.Context, htm, htu, proof string, op
 	}
 
 	// Validate proof claims
-	jtiHash, errJti := v.validateProofClaims(htm, u.String(), claims)
+	jtiHash, errJti := v.validateProofClaims(htm, targetURI(u), claims)
 	if errJti != nil {
 		return "", errJti
 	}
-- 
2.43.0


From bdab4e75410e53105715c4f5fbcdb14a95e42c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:05 +0000
Subject: [PATCH 17/34] fix: signed JWT objects declare the media type their
 consumers require

---
 sdk/token/jwt/signer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/token/jwt/signer.go b/sdk/token/jwt/signer.go
index 822e031..b4833b5 100644
--- a/sdk/token/jwt/signer.go
+++ b/sdk/token/jwt/signer.go
@@ -59,7 +59,7 @@ func (ds *defaultSigner) Serialize(ctx context.Context, claims any) (string, err
 		return "", fmt.Errorf("key provider returned a unidentifiable key")
 	}
 	// Prepare JWT header
-	options := (&jose.SignerOptions{}).WithType(jose.ContentType(ds.tokenType))
+	options := (&jose.SignerOptions{}).WithType(jose.ContentType(fmt.Sprintf("%s+jwt", ds.tokenType)))
 	options = options.WithHeader(jose.HeaderKey("kid"), key.KeyID)
 	options.EmbedJWK = ds.embedJWK
 
-- 
2.43.0


From 356069b75a5ba25845925332f2dce5d9d5bc07eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:26 +0000
Subject: [PATCH 18/34] fix: JWT verifiers refuse a missing key set or embedded
 key instead of crashing

---
 sdk/token/jwt/embedded_verifier.go | 3 +++
 sdk/token/jwt/verifier.go          | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/sdk/token/jwt/embedded_verifier.go b/sdk/token/jwt/embedded_verifier.go
index b0e88dc..97245d2 100644
--- a/sdk/token/jwt/embedded_verifier.go
+++ b/sdk/token/jwt/embedded_verifier.go
@@ -94,6 +94,9 @@ func (v *embeddedKeyVerifier) Claims(ctx context.Context, raw string, claims any
 
 	// Get embedded key.
 	embeddedJwk := t.Headers[0].JSONWebKey
+	if embeddedJwk == nil {
+		return errors.New("token has no embedded public key")
+	}
 
 	// Try to verify with current key
 	if err := t.Claims(embeddedJwk, claims); err != nil {
diff --git a/sdk/token/jwt/verifier.go b/sdk/token/jwt/verifier.go
index f2d1e3c..ebd6cbf 100644
--- a/sdk/token/jwt/verifier.go
+++ b/sdk/token/jwt/verifier.go
@@ -87,6 +87,10 @@ func (v *defaultVerifier) Claims(ctx context.Context, raw string, claims any) er
 		return fmt.Errorf("unable to retrieve KeySet: %w", err)
 	}
 
+	if jwks == nil {
+		return errors.New("key set provider returned a nil KeySet")
+	}
+
 	// Set all keys by default
 	keys := jwks.Keys
 
-- 
2.43.0


From 2f8bba83cdc96405b8eae568050a488905cce7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:31 +0000
Subject: [PATCH 19/34] fix: client attestation is bound to the attested client
 and key, and reports every failure

---
 .../client_attestation.go                     | 54 +++++++++++++------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index be1662a..479a0e2 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -58,6 +58,12 @@ type clientAttestationPOPClaims struct {
 func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req *clientv1.AuthenticateRequest) (*clientv1.AuthenticateResponse, error) {
 	res := &clientv1.AuthenticateResponse{}
 
+	// Validate request
+	if req == nil {
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("unable to process nil request")
+	}
+
 	// Validate required fields for this authentication method
 	if req.ClientAssertionType == nil {
 		res.Error = rfcerrors.InvalidRequest().Build()
@@ -84,7 +90,7 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 	}
 
 	// Decode assertions without validation first
-	clientPublicKey, err := p.validateClientAttestation(ctx, assertions[0])
+	clientPublicKey, attestedClientID, err := p.validateClientAttestation(ctx, assertions[0])
 	if err != nil {
 		res.Error = rfcerrors.UnauthorizedClient().Build()
 		return res, errors.New("invalid client attestation")
@@ -101,18 +107,27 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 	var claims clientAttestationPOPClaims
 	if err := rawPoP.Claims(clientPublicKey, &claims); err != nil {
 		res.Error = rfcerrors.UnauthorizedClient().Build()
-		return nil, fmt.Errorf("client attestation PoP is invalid: %w", err)
+		return res, fmt.Errorf("client attestation PoP is invalid: %w", err)
 	}
 
 	// Validate claims
 	if claims.Issuer == "" || claims.Expires == 0 || claims.JTI == "" || claims.Audience == "" {
-		return nil, fmt.Errorf("iss, exp, jti, aud are mandatory and not empty")
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("iss, exp, jti, aud are mandatory and not empty")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("expired token")
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("expired token")
 	}
 	if claims.NotBefore > uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("not useable token")
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("not useable token")
+	}
+
+	// The PoP must be issued by the attested client
+	if claims.Issuer != attestedClientID {
+		res.Error = rfcerrors.UnauthorizedClient().Build()
+		return res, fmt.Errorf("client attestation PoP was not issued by the attested client")
 	}
 
 	// Check client in storage
@@ -134,55 +149,60 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 
 // -----------------------------------------------------------------------------
 
-func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.Context, clientAttestation string) (*jose.JSONWebKey, error) {
+func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.Context, clientAttestation string) (*jose.JSONWebKey, string, error) {
 	// Parse attestation without cryptogrpahic verification first
 	rawAttestation, err := jose.ParseSigned(clientAttestation, p.supportedAlgorithms)
 	if err != nil {
-		return nil, fmt.Errorf("client attestation is syntaxically invalid: %w", err)
+		return nil, "", fmt.Errorf("client attestation is syntaxically invalid: %w", err)
 	}
 
 	// Retrieve payload claims
 	var claims clientAttestationClaims
 	if errDecode := json.Unmarshal(rawAttestation.UnsafePayloadWithoutVerification(), &claims); errDecode != nil {
-		return nil, fmt.Errorf("unable to decode payload claims: %w", errDecode)
+		return nil, "", fmt.Errorf("unable to decode payload claims: %w", errDecode)
 	}
 
 	// Validate claims
 	if claims.Issuer == "" || claims.Subject == "" || claims.Expires == 0 || claims.Confirmation == nil {
-		return nil, fmt.Errorf("iss, sub, exp, cnf are mandatory and not empty")
+		return nil, "", fmt.Errorf("iss, sub, exp, cnf are mandatory and not empty")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("expired token")
+		return nil, "", fmt.Errorf("expired token")
 	}
 	if claims.NotBefore > uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("not useable token")
+		return nil, "", fmt.Errorf("not useable token")
 	}
 
 	// Check client in storage
 	client, err := p.clients.Get(ctx, claims.Issuer)
 	if err != nil {
 		if err != storage.ErrNotFound {
-			return nil, fmt.Errorf("error during client retrieval: %w", err)
+			return nil, "", fmt.Errorf("error during client retrieval: %w", err)
 		}
-		return nil, fmt.Errorf("client not found")
+		return nil, "", fmt.Errorf("client not found")
 	}
 
 	// Retrieve JWK associated to the client
 	if len(client.Jwks) == 0 {
-		return nil, fmt.Errorf("client jwks is nil")
+		return nil, "", fmt.Errorf("client jwks is nil")
 	}
 
 	// Parse JWKS
 	var jwks jose.JSONWebKeySet
 	if err := json.Unmarshal(client.Jwks, &jwks); err != nil {
-		return nil, fmt.Errorf("client jwks is invalid: %w", err)
+		return nil, "", fmt.Errorf("client jwks is invalid: %w", err)
 	}
 
 	// Try to validate assertion with one of keys
 	if err := jwk.ValidateSignature(&jwks, rawAttestation); err != nil {
-		return nil, fmt.Errorf("client assertion is invalid: %w", err)
+		return nil, "", fmt.Errorf("client assertion is invalid: %w", err)
+	}
+
+	// Check attested key
+	if claims.Confirmation.JWK == nil || !claims.Confirmation.JWK.Valid() || !claims.Confirmation.JWK.IsPublic() {
+		return nil, "", fmt.Errorf("a valid public key is mandatory in cnf")
 	}
 
 	// Extract client public key
-	return claims.Confirmation.JWK, nil
+	return claims.Confirmation.JWK, claims.Subject, nil
 }
-- 
2.43.0


From da530fc90d3bb499c0cf829f43750bf3140712a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:06 +0000
Subject: [PATCH 20/34] fix: JARM states the encoding issuer and keeps the
 state of an error response

---
 sdk/jarm/decoder.go | 1 +
 sdk/jarm/encoder.go | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/jarm/decoder.go b/sdk/jarm/decoder.go
index d6b3932..a4db158 100644
--- a/sdk/jarm/decoder.go
+++ b/sdk/jarm/decoder.go
@@ -99,6 +99,7 @@ func (d *tokenDecoder) Decode(ctx context.Context, audience, response string) (*
 				Err:              claims.Error,
 				ErrorDescription: claims.ErrorDescription,
 			},
+			State: claims.State,
 		}, nil
 	}
 
diff --git a/sdk/jarm/encoder.go b/sdk/jarm/encoder.go
index 7c853c5..bcb449c 100644
--- a/sdk/jarm/encoder.go
+++ b/sdk/jarm/encoder.go
@@ -73,7 +73,7 @@ func (d *tokenEncoder) Encode(ctx context.Context, issuer string, resp *flowv1.A
 
 		claims = &responseClaims{
 			State:     resp.State,
-			Issuer:    resp.Issuer,
+			Issuer:    issuer,
 			Audience:  resp.ClientId,
 			Code:      resp.Code,
 			ExpiresAt: uint64(time.Now().Add(time.Duration(resp.ExpiresIn) * time.Second).Unix()),
-- 
2.43.0


From ce509a983bf6ce7341f31ce5b7b666314fc46266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:39 +0000
Subject: [PATCH 21/34] fix: verifiable identifiers with too large parts are
 refused instead of crashing

---
 sdk/token/verifiable/helpers.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdk/token/verifiable/helpers.go b/sdk/token/verifiable/helpers.go
index bbe431d..ab8d1fb 100644
--- a/sdk/token/verifiable/helpers.go
+++ b/sdk/token/verifiable/helpers.go
@@ -31,5 +31,10 @@ func parsePaddedBase62(s string, length int) ([]byte, error) {
 		return []byte{}, fmt.Errorf("cannot parse base62: %q", s)
 	}
 
+	// Ensure that the value fits in the output
+	if i.BitLen() > 8*length {
+		return []byte{}, fmt.Errorf("base62 value is too large: %q", s)
+	}
+
 	return i.FillBytes(out), nil
 }
-- 
2.43.0


From b5e8f9af3f1f24f8198fd32b4d7b849472a4a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:49 +0000
Subject: [PATCH 22/34] fix: the client refuses empty metadata and empty key
 sets

---
 client/http.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client/http.go b/client/http.go
index a67df99..feb76ad 100644
--- a/client/http.go
+++ b/client/http.go
@@ -67,6 +67,11 @@ func HTTP(ctx context.Context, issuer string, opts *Options) (Client, error) {
 		return nil, fmt.Errorf("unable to decode server metadata: %w", err)
 	}
 
+	// Check that the answer holds metadata
+	if c.serverMetadata == nil {
+		return nil, fmt.Errorf("server metadata are empty")
+	}
+
 	// Retrieve public keys
 	if _, _, err := c.PublicKeys(ctx); err != nil {
 		return nil, fmt.Errorf("unable to retrieve public keys: %w", err)
@@ -469,7 +474,7 @@ func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint6
 	}
 
 	// Check keys
-	if len(jwks.Keys) == 0 {
+	if jwks.JSONWebKeySet == nil || len(jwks.Keys) == 0 {
 		return nil, 0, fmt.Errorf("remote jwks doesn't contain keys")
 	}
 
-- 
2.43.0


From 8938fb5dbe7d20ffe87951e1c7a7720fe9086279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:28 +0000
Subject: [PATCH 23/34] fix: a code session or a pushed request of the
 in-memory store is consumed only once

---
 .../inmemory/authorization_code_session.go        | 15 ++++++++++++++-
 server/storage/inmemory/authorization_request.go  | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index e0822e8..a638cea 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -31,6 +32,9 @@ import (
 
 type sessionStorage struct {
 	backend *cache.Cache
+
+	// deleteLock makes the check and the removal of an entry atomic.
+	deleteLock sync.Mutex
 }
 
 // AuthorizationCodeSessions returns an authorization session manager.
@@ -54,7 +58,16 @@ func (s *sessionStorage) Register(ctx context.Context, issuer, code string, req
 }
 
 func (s *sessionStorage) Delete(ctx context.Context, issuer, code string) error {
-	s.backend.Delete(s.deriveKey(issuer, code))
+	s.deleteLock.Lock()
+	defer s.deleteLock.Unlock()
+
+	// An entry can be deleted only once
+	key := s.deriveKey(issuer, code)
+	if _, found := s.backend.Get(key); !found {
+		return storage.ErrNotFound
+	}
+
+	s.backend.Delete(key)
 	// No error
 	return nil
 }
diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index 6c24209..b224d8f 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -31,6 +32,9 @@ import (
 
 type authorizationRequestStorage struct {
 	backend *cache.Cache
+
+	// deleteLock makes the check and the removal of an entry atomic.
+	deleteLock sync.Mutex
 }
 
 // AuthorizationRequests returns an authorization request manager.
@@ -54,7 +58,16 @@ func (s *authorizationRequestStorage) Register(ctx context.Context, issuer, requ
 }
 
 func (s *authorizationRequestStorage) Delete(ctx context.Context, issuer, requestURI string) error {
-	s.backend.Delete(s.deriveKey(issuer, requestURI))
+	s.deleteLock.Lock()
+	defer s.deleteLock.Unlock()
+
+	// An entry can be deleted only once
+	key := s.deriveKey(issuer, requestURI)
+	if _, found := s.backend.Get(key); !found {
+		return storage.ErrNotFound
+	}
+
+	s.backend.Delete(key)
 	// No error
 	return nil
 }
-- 
2.43.0


From a8377d203202ad1ad61b72d36ecd8e491d3521e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:11 +0000
Subject: [PATCH 24/34] fix: in-memory store keys keep issuer and value apart

---
 server/storage/inmemory/authorization_code_session.go | 3 ++-
 server/storage/inmemory/authorization_request.go      | 3 ++-
 server/storage/inmemory/device_code_session.go        | 6 ++++--
 server/storage/inmemory/token.go                      | 3 ++-
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index a638cea..c279267 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -92,7 +92,8 @@ func (s *sessionStorage) deriveKey(issuer, code string) string {
 	}
 
 	h.Write([]byte("solid:authorization-code-sessions:v1"))
-	h.Write([]byte(issuer))
+	// Keep issuer and value apart
+	fmt.Fprintf(h, "%d:%s", len(issuer), issuer)
 	h.Write([]byte(code))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index b224d8f..0da5169 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -92,7 +92,8 @@ func (s *authorizationRequestStorage) deriveKey(issuer, requestURI string) strin
 	}
 
 	h.Write([]byte("solid:authorization-requests:v1"))
-	h.Write([]byte(issuer))
+	// Keep issuer and value apart
+	fmt.Fprintf(h, "%d:%s", len(issuer), issuer)
 	h.Write([]byte(requestURI))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 3f975f3..e8fd11a 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -102,7 +102,8 @@ func (s *deviceCodeSessionStorage) deriveUserCode(issuer, code string) string {
 	}
 
 	h.Write([]byte("solid:device-authorization-user-code:v1"))
-	h.Write([]byte(issuer))
+	// Keep issuer and value apart
+	fmt.Fprintf(h, "%d:%s", len(issuer), issuer)
 	h.Write([]byte(code))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
@@ -116,7 +117,8 @@ func (s *deviceCodeSessionStorage) deriveDeviceCode(issuer, code string) string
 	}
 
 	h.Write([]byte("solid:device-authorization-device-code:v1"))
-	h.Write([]byte(issuer))
+	// Keep issuer and value apart
+	fmt.Fprintf(h, "%d:%s", len(issuer), issuer)
 	h.Write([]byte(code))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index 6f9c93e..25f2174 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -127,7 +127,8 @@ func (s *tokenStorage) deriveValue(issuer, value string) string {
 	}
 
 	h.Write([]byte("solid:token:v1"))
-	h.Write([]byte(issuer))
+	// Keep issuer and value apart
+	fmt.Fprintf(h, "%d:%s", len(issuer), issuer)
 	h.Write([]byte(value))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
-- 
2.43.0


From f22fc002dee75c8a01887ed739a89fcdc951f978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:32 +0000
Subject: [PATCH 25/34] fix: the in-memory token store separates token
 identifiers by issuer

---
 server/storage/inmemory/token.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index 25f2174..32504ef 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -29,6 +29,12 @@ import (
 	"zntr.io/solid/server/storage"
 )
 
+// tokenKey identifies a token of an issuer.
+type tokenKey struct {
+	issuer string
+	id     string
+}
+
 type tokenStorage struct {
 	idIndex    sync.Map
 	valueIndex sync.Map
@@ -56,7 +62,7 @@ func (s *tokenStorage) Create(ctx context.Context, issuer string, t *tokenv1.Tok
 	// Compute token value hash
 	tCopy.Value = s.deriveValue(issuer, tCopy.Value)
 
-	s.idIndex.Store(tCopy.TokenId, tCopy)
+	s.idIndex.Store(tokenKey{issuer: issuer, id: tCopy.TokenId}, tCopy)
 	s.valueIndex.Store(tCopy.Value, tCopy)
 
 	// No error
@@ -65,7 +71,7 @@ func (s *tokenStorage) Create(ctx context.Context, issuer string, t *tokenv1.Tok
 
 func (s *tokenStorage) Get(ctx context.Context, issuer, id string) (*tokenv1.Token, error) {
 	// Check is client exists
-	client, ok := s.idIndex.Load(id)
+	client, ok := s.idIndex.Load(tokenKey{issuer: issuer, id: id})
 	if !ok {
 		return nil, storage.ErrNotFound
 	}
@@ -92,7 +98,7 @@ func (s *tokenStorage) Delete(ctx context.Context, issuer, id string) error {
 		return err
 	}
 
-	s.idIndex.Delete(t.TokenId)
+	s.idIndex.Delete(tokenKey{issuer: issuer, id: id})
 	s.valueIndex.Delete(t.Value)
 
 	// No error
@@ -106,11 +112,12 @@ func (s *tokenStorage) Revoke(ctx context.Context, issuer, id string) error {
 		return err
 	}
 
-	// Set as revoked
+	// Set as revoked, without changing the token which readers may hold
+	t = proto.Clone(t).(*tokenv1.Token)
 	t.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
 
 	// Update maps
-	s.idIndex.Store(t.TokenId, t)
+	s.idIndex.Store(tokenKey{issuer: issuer, id: id}, t)
 	s.valueIndex.Store(t.Value, t)
 
 	// No error
-- 
2.43.0


From bb298cede2f04414a16ca17a21c8bea5af8e16da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:53 +0000
Subject: [PATCH 26/34] fix: the in-memory device session store sets the
 expiration and keys sessions by issuer

---
 .../storage/inmemory/device_code_session.go   | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index e8fd11a..5829072 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -29,6 +29,9 @@ import (
 	"zntr.io/solid/server/storage"
 )
 
+// deviceCodeSessionLifetime defines how long a device code session is kept.
+const deviceCodeSessionLifetime = 2 * time.Minute
+
 type deviceCodeSessionStorage struct {
 	userCodeIndex   *cache.Cache
 	deviceCodeIndex *cache.Cache
@@ -37,8 +40,8 @@ type deviceCodeSessionStorage struct {
 // DeviceCodeSessions returns a device authorization session manager.
 func DeviceCodeSessions() storage.DeviceCodeSession {
 	// Initialize in-memory caches
-	userCodeCache := cache.New(2*time.Minute, 10*time.Minute)
-	deviceCodeCache := cache.New(2*time.Minute, 10*time.Minute)
+	userCodeCache := cache.New(deviceCodeSessionLifetime, 10*time.Minute)
+	deviceCodeCache := cache.New(deviceCodeSessionLifetime, 10*time.Minute)
 
 	return &deviceCodeSessionStorage{
 		userCodeIndex:   userCodeCache,
@@ -49,12 +52,15 @@ func DeviceCodeSessions() storage.DeviceCodeSession {
 // -----------------------------------------------------------------------------
 
 func (s *deviceCodeSessionStorage) Register(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) (uint64, error) {
+	// Set the expiration
+	req.ExpiresAt = uint64(time.Now().Add(deviceCodeSessionLifetime).Unix())
+
 	// Insert in cache
-	s.userCodeIndex.Set(s.deriveUserCode(req.Issuer, userCode), req, cache.DefaultExpiration)
-	s.deviceCodeIndex.Set(s.deriveDeviceCode(req.Issuer, req.DeviceCode), req, cache.DefaultExpiration)
+	s.userCodeIndex.Set(s.deriveUserCode(issuer, userCode), req, cache.DefaultExpiration)
+	s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, req.DeviceCode), req, cache.DefaultExpiration)
 
 	// No error
-	return uint64(120), nil
+	return uint64(deviceCodeSessionLifetime.Seconds()), nil
 }
 
 func (s *deviceCodeSessionStorage) Delete(ctx context.Context, issuer, code string) error {
@@ -85,8 +91,8 @@ func (s *deviceCodeSessionStorage) GetByUserCode(ctx context.Context, issuer, us
 
 func (s *deviceCodeSessionStorage) Validate(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) error {
 	// Insert in cache
-	s.userCodeIndex.Set(s.deriveUserCode(req.Issuer, userCode), req, cache.DefaultExpiration)
-	s.deviceCodeIndex.Set(s.deriveDeviceCode(req.Issuer, req.DeviceCode), req, cache.DefaultExpiration)
+	s.userCodeIndex.Set(s.deriveUserCode(issuer, userCode), req, cache.DefaultExpiration)
+	s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, req.DeviceCode), req, cache.DefaultExpiration)
 
 	// No error
 	return nil
-- 
2.43.0


From 481bc5efa8874d04d5b2cf46b6ed884155b95958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:26 +0000
Subject: [PATCH 27/34] fix: the in-memory client store can be used
 concurrently

---
 server/storage/inmemory/client.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server/storage/inmemory/client.go b/server/storage/inmemory/client.go
index de66df2..703868f 100644
--- a/server/storage/inmemory/client.go
+++ b/server/storage/inmemory/client.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"strings"
+	"sync"
 
 	"github.com/dchest/uniuri"
 
@@ -29,6 +30,7 @@ import (
 )
 
 type clientStorage struct {
+	lock    sync.RWMutex
 	backend map[string]*clientv1.Client
 }
 
@@ -172,6 +174,9 @@ func Clients() storage.Client {
 // -----------------------------------------------------------------------------
 
 func (s *clientStorage) Get(ctx context.Context, id string) (*clientv1.Client, error) {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+
 	// Check is client exists
 	client, ok := s.backend[id]
 	if !ok {
@@ -183,6 +188,9 @@ func (s *clientStorage) Get(ctx context.Context, id string) (*clientv1.Client, e
 }
 
 func (s *clientStorage) GetByName(ctx context.Context, name string) (*clientv1.Client, error) {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+
 	// Iterate over bakend map
 	for _, c := range s.backend {
 		if strings.EqualFold(c.ClientName, name) {
@@ -200,6 +208,9 @@ func (s *clientStorage) Register(ctx context.Context, c *clientv1.Client) (strin
 	// Assign client id
 	c.ClientId = uniuri.NewLen(16)
 
+	s.lock.Lock()
+	defer s.lock.Unlock()
+
 	// Assign to storage
 	s.backend[c.ClientId] = c
 
-- 
2.43.0


From 57619d9816b709a544a2826d33598f18021c98ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:50 +0000
Subject: [PATCH 28/34] fix: removing a value from a string array removes every
 occurrence

---
 sdk/types/string_array.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/sdk/types/string_array.go b/sdk/types/string_array.go
index fa12e66..71abd5b 100644
--- a/sdk/types/string_array.go
+++ b/sdk/types/string_array.go
@@ -17,7 +17,10 @@
 
 package types
 
-import "strings"
+import (
+	"slices"
+	"strings"
+)
 
 // StringArray describes string array type
 type StringArray []string
@@ -45,17 +48,9 @@ func (s *StringArray) AddIfNotContains(item string) {
 
 // Remove item from collection
 func (s *StringArray) Remove(item string) {
-	idx := -1
-	for i, v := range *s {
-		if strings.EqualFold(item, v) {
-			idx = i
-			break
-		}
-	}
-	if idx < 0 {
-		return
-	}
-	*s = append((*s)[:idx], (*s)[idx+1:]...)
+	*s = slices.DeleteFunc(*s, func(v string) bool {
+		return strings.EqualFold(item, v)
+	})
 }
 
 // HasOneOf returns true when one of provided items is found in array.
-- 
2.43.0


From 43d21466eb090a3e7f4f7038b69260bb5118c998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:35 +0000
Subject: [PATCH 29/34] fix: refreshed and exchanged tokens are bound to the
 key presented with the request

---
 server/services/token/grant_refresh_token.go  | 8 +++++++-
 server/services/token/grant_token_exchange.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/server/services/token/grant_refresh_token.go b/server/services/token/grant_refresh_token.go
index 5fbf327..1beda9e 100644
--- a/server/services/token/grant_refresh_token.go
+++ b/server/services/token/grant_refresh_token.go
@@ -116,8 +116,14 @@ func (s *service) refreshToken(ctx context.Context, client *clientv1.Client, req
 		return res, fmt.Errorf("refresh_token is bound to another key")
 	}
 
+	// Keep the key binding, or bind to the key presented with the request
+	cnf := rt.Confirmation
+	if cnf.GetJkt() == "" {
+		cnf = req.TokenConfirmation
+	}
+
 	// Generate access token
-	at, err := s.generateAccessToken(ctx, client, rt.Metadata, rt.Confirmation)
+	at, err := s.generateAccessToken(ctx, client, rt.Metadata, cnf)
 	if err != nil {
 		res.Error = rfcerrors.ServerError().Build()
 		return res, fmt.Errorf("unable to generate access token: %w", err)
diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index d7ae6b0..f047fd6 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -174,6 +174,12 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 		scope = *req.Scope
 	}
 
+	// Keep the key binding, or bind to the key presented with the request
+	cnf := st.Confirmation
+	if cnf.GetJkt() == "" {
+		cnf = req.TokenConfirmation
+	}
+
 	// Create access token spec, which must not outlive the subject token
 	now := timeFunc()
 	expiresAt := min(uint64(now.Add(1*time.Minute).Unix()), st.Metadata.ExpiresAt)
@@ -190,7 +196,7 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 			Scope:     scope,
 			Audience:  st.Metadata.Audience,
 		},
-		Confirmation: st.Confirmation,
+		Confirmation: cnf,
 		Status:       tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
 	}
 
-- 
2.43.0


From c8fde59785efa976408c0f43dd28e52e0d1eb444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 30/34] fix: a user code of the in-memory device session store
 is approved only once

---
 .../storage/inmemory/device_code_session.go   | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 5829072..8bba84f 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -20,10 +20,12 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
 	"golang.org/x/crypto/blake2b"
+	"google.golang.org/protobuf/proto"
 
 	sessionv1 "zntr.io/solid/api/oidc/session/v1"
 	"zntr.io/solid/server/storage"
@@ -33,6 +35,7 @@ import (
 const deviceCodeSessionLifetime = 2 * time.Minute
 
 type deviceCodeSessionStorage struct {
+	validateLock    sync.Mutex
 	userCodeIndex   *cache.Cache
 	deviceCodeIndex *cache.Cache
 }
@@ -52,6 +55,9 @@ func DeviceCodeSessions() storage.DeviceCodeSession {
 // -----------------------------------------------------------------------------
 
 func (s *deviceCodeSessionStorage) Register(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) (uint64, error) {
+	// Keep a private copy of the session
+	req = proto.Clone(req).(*sessionv1.DeviceCodeSession)
+
 	// Set the expiration
 	req.ExpiresAt = uint64(time.Now().Add(deviceCodeSessionLifetime).Unix())
 
@@ -73,7 +79,7 @@ func (s *deviceCodeSessionStorage) GetByDeviceCode(ctx context.Context, issuer,
 	// Retrieve from cache
 	if x, found := s.deviceCodeIndex.Get(s.deriveDeviceCode(issuer, deviceCode)); found {
 		req := x.(*sessionv1.DeviceCodeSession)
-		return req, nil
+		return proto.Clone(req).(*sessionv1.DeviceCodeSession), nil
 	}
 
 	return nil, storage.ErrNotFound
@@ -83,13 +89,28 @@ func (s *deviceCodeSessionStorage) GetByUserCode(ctx context.Context, issuer, us
 	// Retrieve from cache
 	if x, found := s.userCodeIndex.Get(s.deriveUserCode(issuer, userCode)); found {
 		req := x.(*sessionv1.DeviceCodeSession)
-		return req, nil
+		return proto.Clone(req).(*sessionv1.DeviceCodeSession), nil
 	}
 
 	return nil, storage.ErrNotFound
 }
 
 func (s *deviceCodeSessionStorage) Validate(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) error {
+	s.validateLock.Lock()
+	defer s.validateLock.Unlock()
+
+	// A user code is validated only once
+	x, found := s.userCodeIndex.Get(s.deriveUserCode(issuer, userCode))
+	if !found {
+		return storage.ErrNotFound
+	}
+	if x.(*sessionv1.DeviceCodeSession).Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {
+		return fmt.Errorf("user code is already validated")
+	}
+
+	// Keep a private copy of the session
+	req = proto.Clone(req).(*sessionv1.DeviceCodeSession)
+
 	// Insert in cache
 	s.userCodeIndex.Set(s.deriveUserCode(issuer, userCode), req, cache.DefaultExpiration)
 	s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, req.DeviceCode), req, cache.DefaultExpiration)
-- 
2.43.0


From 311993c00e55d05558f07246c84f451c428e5e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:11 +0000
Subject: [PATCH 31/34] fix: an expired device code is reported with the
 registered error code

---
 sdk/rfcerrors/errors.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/rfcerrors/errors.go b/sdk/rfcerrors/errors.go
index 1e5ad4e..74371ce 100644
--- a/sdk/rfcerrors/errors.go
+++ b/sdk/rfcerrors/errors.go
@@ -107,10 +107,10 @@ func AccessDenied() ErrorBuilder {
 	}
 }
 
-// TokenExpired returns a compliant `token_expired` error.
+// TokenExpired returns a compliant `expired_token` error.
 func TokenExpired() ErrorBuilder {
 	return &defaultErrorBuilder{
-		err:              "token_expired",
+		err:              "expired_token",
 		errorDescription: "The 'device_code' has expired, and the device authorization session has concluded.",
 	}
 }
-- 
2.43.0


From 7f0a80a170fbf11973fb803987d8802afaa85ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:04 +0000
Subject: [PATCH 32/34] fix: refresh token claims carry the token's key binding

---
 sdk/token/refresh_token.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdk/token/refresh_token.go b/sdk/token/refresh_token.go
index 760fc88..0517190 100644
--- a/sdk/token/refresh_token.go
+++ b/sdk/token/refresh_token.go
@@ -86,6 +86,7 @@ func (c *refreshTokenGenerator) Generate(ctx context.Context, t *tokenv1.Token)
 		JTI:      t.TokenId,
 		ClientID: t.Metadata.ClientId,
 		Scope:    t.Metadata.Scope,
+		Cnf:      t.Confirmation,
 	}
 
 	// Sign the assertion
-- 
2.43.0


From 52e98d57bb95c6cfacdee23ff9e3e479b9e3e599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:05 +0000
Subject: [PATCH 33/34] fix: the client decodes introspection answers instead
 of crashing on them

---
 client/claims.go | 16 +++++++++++++---
 client/http.go   | 18 +++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/client/claims.go b/client/claims.go
index f00bd7d..8787e2f 100644
--- a/client/claims.go
+++ b/client/claims.go
@@ -61,7 +61,17 @@ type jsonJWKSResponse struct {
 }
 
 type jsonTokenIntrospectionResponse struct {
-	*tokenv1.TokenMeta `json:",inline"`
-	Active             bool                       `json:"active"`
-	Confirmation       *tokenv1.TokenConfirmation `json:"cnf,omitempty"`
+	Active       bool                       `json:"active"`
+	TokenID      string                     `json:"jti"`
+	Issuer       string                     `json:"iss"`
+	Subject      string                     `json:"sub"`
+	Audience     string                     `json:"aud"`
+	ClientID     string                     `json:"client_id"`
+	Scope        string                     `json:"scope"`
+	IssuedAt     uint64                     `json:"iat"`
+	NotBefore    uint64                     `json:"nbf"`
+	ExpiresAt    uint64                     `json:"exp"`
+	Acr          *string                    `json:"acr,omitempty"`
+	AuthTime     *uint64                    `json:"auth_time,omitempty"`
+	Confirmation *tokenv1.TokenConfirmation `json:"cnf,omitempty"`
 }
diff --git a/client/http.go b/client/http.go
index feb76ad..2ea0079 100644
--- a/client/http.go
+++ b/client/http.go
@@ -424,9 +424,21 @@ func (c *httpClient) Introspect(ctx context.Context, assertion, token string) (*
 
 	// Return token info
 	return &tokenv1.Token{
-		Issuer:       c.issuer,
-		Status:       tokenStatus,
-		Metadata:     t.TokenMeta,
+		Issuer:  c.issuer,
+		TokenId: t.TokenID,
+		Status:  tokenStatus,
+		Metadata: &tokenv1.TokenMeta{
+			Issuer:    t.Issuer,
+			Subject:   t.Subject,
+			Audience:  t.Audience,
+			ClientId:  t.ClientID,
+			Scope:     t.Scope,
+			IssuedAt:  t.IssuedAt,
+			NotBefore: t.NotBefore,
+			ExpiresAt: t.ExpiresAt,
+			Acr:       t.Acr,
+			AuthTime:  t.AuthTime,
+		},
 		Confirmation: t.Confirmation,
 		Value:        token,
 	}, nil
-- 
2.43.0


From 71e9b6dbb99a92f43b17f2c2ae91f25152cc65df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:12 +0000
Subject: [PATCH 34/34] fix: the CWT signer refuses missing parts and keys that
 do not fit the algorithm

---
 sdk/token/cwt/signer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sdk/token/cwt/signer.go b/sdk/token/cwt/signer.go
index 5ed4a10..0c51756 100644
--- a/sdk/token/cwt/signer.go
+++ b/sdk/token/cwt/signer.go
@@ -54,6 +54,12 @@ func (ds *defaultSigner) Serialize(ctx context.Context, claims any) (string, err
 	if types.IsNil(claims) {
 		return "", errors.New("unable to sign nil claim object")
 	}
+	if ds.keyProvider == nil {
+		return "", errors.New("unable to use nil keyProvider")
+	}
+	if ds.alg == nil {
+		return "", errors.New("unable to use nil algorithm")
+	}
 
 	// Retrieve signing key
 	key, err := ds.keyProvider(ctx)
@@ -99,6 +105,12 @@ func (ds *defaultSigner) Serialize(ctx context.Context, claims any) (string, err
 		return "", fmt.Errorf("unable to sign claims: %w", err)
 	}
 
+	// COSE does not compare the key with the algorithm on signature, only on
+	// verification.
+	if err := msg.Verify([]byte("solid"), []cose.Verifier{*signer.Verifier()}); err != nil {
+		return "", fmt.Errorf("key is not usable with the algorithm: %w", err)
+	}
+
 	// Marshal final assertion
 	assertion, err := msg.MarshalCBOR()
 	if err != nil {
-- 
2.43.0

