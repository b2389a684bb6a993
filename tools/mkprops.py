#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one call per property)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title)); P.append(d)

AZ="server/services/authorization/service.go"
TS="server/services/token/"
# ---------------------------------------------------------------- authorization endpoint
p("A01","Authorization codes are issued only for fully valid requests",
  "An authorization code is issued only when the request names an issuer and an authenticated subject, carries every mandatory parameter (state of at least 32 bytes, nonce of at least 8, audience, scope, a 43-byte S256 code challenge, a syntactically valid redirect URI, a supported response type and response mode), and the client it names is registered for the authorization_code grant, that response type, that exact redirect URI and that response mode. A request that meets all of this, with a working backend, is granted a code.",
  ["inputs","configurations","fault_sequences"],
  "Every field of the request and every client registration is symbolic (bounded string lengths and list sizes), with every storage and generator call allowed to fail.",
  "The tests use a fixed table of malformed requests, one defect at a time, against one or two clients; they cannot show that no other combination of fields and client registration gets a code.",
  [AZ,"sdk/types/string_array.go"],
  [("validate / validateClientCapabilities",AZ),("Authorize gate",AZ)],
  ["services.Authorization.Authorize response","authorization code session storage writes"])
p("A02","Authorization responses and stored sessions match the request they grant",
  "The session stored for an issued code records the issuer, the subject and the validated request it was granted for, and the response carries that same code together with the request's state, redirect URI, client, response mode and issuer and the lifetime reported by storage. For an OpenID request offline access is kept in the granted scope only when the request asked for explicit consent, no scope is ever added, and the other requested scopes are kept.",
  ["inputs","configurations"],
  "All requests (direct or by reference), symbolic state, nonce, client, redirect URI, response mode, prompt; scopes drawn from all sub-lists of a scope vocabulary plus an arbitrary extra scope.",
  "The tests compare a few fixed responses; several of them ignore the session that was stored.",
  [AZ],[("session registration and response assembly",AZ),("scope cleaning",AZ)],
  ["AuthorizeResponse","AuthorizationCodeSession given to storage"])
p("A03","A pushed request reference is used once, by its client, at its issuer",
  "A pushed authorization request is honoured only at the issuer that registered it and, when the caller is authenticated, only for the client that pushed it, its parameters replace everything sent with the reference, and the reference is deleted before any code is issued from it. A reference that is malformed, unknown, or could not be deleted never yields a code.",
  ["inputs","histories","fault_sequences"],
  "All pairs of (presenting client, stored request, issuers), any failure of each storage call, and every history of up to three push/authorize calls over the in-memory store.",
  "Tests mock the store with fixed answers and never run push followed by authorize, nor a second use, nor another client.",
  [AZ,"server/storage/inmemory/authorization_request.go"],
  [("request_uri resolution, burn after read",AZ)],["AuthorizeResponse","calls observed by the request store"],
  state=[("authorization request store","issuer + request_uri -> request","server/storage/inmemory/authorization_request.go")])
p("A04","Pushed authorization requests are registered only for their own client",
  "A pushed authorization request is stored, and a reference returned, only when the caller is an authenticated client, the request is itself not a reference, satisfies every rule of the authorization endpoint and names the authenticated client. The response then carries exactly the reference under which the request was stored, the lifetime reported by storage and the issuer.",
  ["inputs","configurations","fault_sequences"],
  "All requests and clients with symbolic fields, and any failure of generator and store.",
  "Tests enumerate single-field mistakes with one client.",
  [AZ],[("Register",AZ)],["RegistrationResponse","request store writes"])
p("A05","A refused authorization request always reports an error and leaves no artefact",
  "Whenever an authorization or pushed-authorization call fails, the caller gets a non-nil response holding a protocol error code, no code and no reference, and no code session is left registered; a success never carries an error. An error that states a state repeats exactly that of the request.",
  ["inputs","fault_sequences"],
  "All inputs including nil and empty ones and every combination of failing dependencies.",
  "A table of failures cannot show that no path returns a nil response, a code together with an error, or the wrong state.",
  [AZ,"sdk/rfcerrors/builder.go","sdk/rfcerrors/errors.go"],[("error returns",AZ)],["AuthorizeResponse.Error","RegistrationResponse.Error"])
# ---------------------------------------------------------------- token endpoint
p("A06","Protocol errors carry their registered code and only what they were given",
  "Every protocol error of the catalogue states its registered error code and a description, repeats exactly the state and description it is given, invents no other member, keeps all of them on the wire, and shares nothing with errors made before or after it.",
  ["inputs"],
  "All states and descriptions and all pairs of errors.",
  "Tests sample single errors.",
  ["sdk/rfcerrors"],[("catalogue","sdk/rfcerrors/errors.go"),("Build","sdk/rfcerrors/builder.go")],["error builders"])
p("A07","A failed request blames the server exactly when the server failed",
  "Whenever a storage or generator the service depends on fails during a token, authorization, registration, introspection, device or client-authentication call, the call fails and reports server_error; whenever they all work, a refused call never reports server_error but the code of its cause: invalid_client for an unknown client at the token and introspection endpoints, unsupported_grant_type for a grant the client is not registered for, invalid_grant for a code that is unknown, foreign or does not fit its request, invalid_scope and invalid_target for an exchange that asks too much, expired_token and authorization_pending for device codes; and a well-formed request is not refused at all.",
  ["inputs","fault_sequences"],
  "Every grant and call, with every single thing wrong and every dependency failing at every call.",
  "Tests sample one failure at a time with doubles that expect one exact sequence of calls.",
  [TS+"service.go",TS+"generator.go","server/services/authorization/service.go","server/services/device/service.go","server/clientauthentication/private_key_jwt.go"],[("Token","server/services/token/service.go"),("Authorize","server/services/authorization/service.go"),("Introspect","server/services/token/service.go")],["the error of every response"])
p("B01","Tokens are issued only to known clients for a supported, well-formed grant",
  "A token request yields tokens only if it names an issuer, an authenticated client that storage knows and a supported grant type accompanied by that grant's parameters, and the client is registered for that grant type. The grant executed is the one named by the grant type, and whenever the call fails the response is non-nil, carries an error code and no token.",
  ["inputs","configurations","fault_sequences"],
  "All token requests: any grant type string, any grant payload (matching or not), any client registration, any dependency failure.",
  "Tests exercise each grant with its own payload and a handful of clients; combinations of type, payload and registration are not covered.",
  [TS+"service.go",TS+"validator.go",TS+"grant_authorization_code.go",TS+"grant_client_credentials.go",TS+"grant_device_code.go",TS+"grant_refresh_token.go",TS+"grant_token_exchange.go"],
  [("validateRequest",TS+"validator.go"),("grant dispatch",TS+"service.go")],["TokenResponse","token store writes"])
p("B02","A code is redeemed only by its client with its redirect URI and verifier",
  "Redeeming an authorization code yields tokens only if an unexpired session exists for that code at that issuer, the redeeming client is the one the code was issued to, the redirect URI is exactly the one of the authorization request and still registered for the client, and the SHA-256 of the presented verifier (43 to 128 bytes) equals the stored challenge. A client presenting all of these correctly gets its token.",
  ["inputs","configurations","fault_sequences"],
  "All sessions, clients and redemption requests with symbolic contents; verifier and challenge related only through SHA-256, treated as an arbitrary collision-free function.",
  "The tests check one wrong verifier and one wrong redirect URI against fixed sessions; another client presenting a stolen code is never tried.",
  [TS+"grant_authorization_code.go"],[("PKCE and redirect checks",TS+"grant_authorization_code.go")],["TokenResponse"])
p("B03","An authorization code is spent before any token exists and never works twice",
  "No token is generated, stored or returned for an authorization code until its session has been deleted, a failed deletion yields no token, and once presented with well-formed parameters a code can never be redeemed again, even when the first attempt failed its checks.",
  ["inputs","histories","fault_sequences"],
  "All redemption requests with every store failure, and every sequence of up to three redemptions of the same code against the real in-memory store.",
  "Tests mock the code store; they never redeem twice against a real one.",
  [TS+"grant_authorization_code.go","server/storage/inmemory/authorization_code_session.go"],[("delete before issue",TS+"grant_authorization_code.go")],["order of store calls","TokenResponse"])
p("B04","Issued tokens carry exactly the granted identity, lifetime and key binding",
  "Every access or refresh token issued by a grant names the request's issuer, the authenticated client, the granted subject (if any), audience and scope, is active, becomes valid no later than it expires and expires exactly one hour (access; at most one minute when exchanged) or seven days (refresh) after issuance, and is bound to the key of the token it derives from, else to the key proven by the request, whenever there is one. A refresh token accompanies a code grant only if the granted scope holds both openid and offline_access.",
  ["inputs","configurations"],
  "All sessions, clients, scopes from a scope vocabulary, confirmations, and all issuance instants in a 60-year window.",
  "Tests freeze the clock at one instant and compare one or two tokens.",
  [TS+"generator.go",TS+"grant_authorization_code.go",TS+"grant_client_credentials.go"],[("generateAccessToken / generateRefreshToken",TS+"generator.go")],["tokens given to the generator, the store and the caller"])
p("B05","A token is returned only after it has a value and has been stored",
  "Every token handed to a client has a non-empty value produced by the token generator and was stored, unchanged and under the right issuer, before the response was returned; if generation or storage fails, or yields an empty value, the request fails and the client gets no token.",
  ["inputs","fault_sequences"],
  "All grants, with the generators returning arbitrary values or errors and every store call free to fail.",
  "Tests fail one dependency at a time in a fixed scenario per grant.",
  [TS+"generator.go",TS+"grant_refresh_token.go",TS+"grant_device_code.go",TS+"grant_token_exchange.go"],[("generate, check, store, return",TS+"generator.go")],["TokenResponse vs token store contents"])
p("B06","Refresh accepts only the client's own live refresh token and never widens it",
  "A refresh request yields tokens only for a stored refresh token that is active, unexpired, and was stored for the same issuer and issued to the same authenticated client. The new access token keeps the subject and audience of the presented token and its scope never exceeds the presented token's scope.",
  ["inputs","configurations","fault_sequences"],
  "All stored tokens (type, status, times, owner, scope, confirmation symbolic), all requests, all instants.",
  "Tests try a few expired or foreign tokens; type, owner, status, time and scope are never varied together.",
  [TS+"grant_refresh_token.go","sdk/token/helpers.go"],[("refresh token checks",TS+"grant_refresh_token.go")],["TokenResponse"])
p("B07","Refreshing keeps the key binding and rotates near-expired refresh tokens",
  "Tokens obtained by refreshing stay bound to the key the refresh token was bound to, and a request proving another key is refused. When a replacement refresh token is issued, the old one is revoked in storage, otherwise the presented token is left untouched.",
  ["inputs","histories","fault_sequences"],
  "All stored refresh tokens and proofs with symbolic confirmations, all remaining lifetimes, any failure of the store.",
  "Rotation depends on the clock and on a store failing midway; tests sample single instants and never vary the confirmation.",
  [TS+"grant_refresh_token.go",TS+"generator.go"],[("rotation",TS+"grant_refresh_token.go")],["TokenResponse","token store writes"])
p("B08","Device codes yield tokens only when approved, unexpired and to their client",
  "A device code yields tokens only if a session for it exists at that issuer, was approved by a user, has not expired, and belongs to the authenticated client; while undecided the answer is authorization_pending and after expiry expired_token. The tokens carry the subject who approved, and the scope and audience of the device request.",
  ["inputs","configurations","fault_sequences"],
  "All device sessions (status, expiry, client, subject, scope, audience symbolic), all clients, all instants.",
  "Tests use a handful of frozen sessions; client, status and expiry are not varied together.",
  [TS+"grant_device_code.go"],[("status and expiry checks",TS+"grant_device_code.go")],["TokenResponse"])
p("B09","Client-credentials tokens belong to the client itself",
  "The client-credentials grant yields only an access token, never a refresh token, issued for the requested scope and audience to the authenticated client, and only when the client is confidential or credentialed and registered for that grant. Its subject is never chosen by the caller.",
  ["inputs","configurations","fault_sequences"],
  "All requests and client registrations, symbolic scope and audience.",
  "Fixed table of requests.",
  [TS+"grant_client_credentials.go"],[("clientCredentials",TS+"grant_client_credentials.go")],["TokenResponse"])
p("B10","Token exchange only narrows a live subject token for a known audience",
  "Token exchange yields a token only for a stored access token that is active, within its validity period and stored for the same issuer, and, when the request names an audience, only for one that is a registered resource. The new token keeps the subject, its scope never exceeds the subject token's, and it never outlives the subject token; failures are reported as errors, never as crashes.",
  ["inputs","configurations","fault_sequences"],
  "All exchange requests (present, absent and malformed parameters), all stored subject tokens, all instants, any store failure.",
  "There is no test of this grant at all.",
  [TS+"grant_token_exchange.go"],[("tokenExchange",TS+"grant_token_exchange.go")],["TokenResponse","absence of panics"])
p("B11","Introspection reports a token active only while it really is",
  "Introspection returns token details only for a token stored for that issuer, to an authenticated known client, and reports it as active only if its status is active and the current time lies within its validity period. An unknown token is answered without an error and never as active, and every other failure is reported as an error without token details.",
  ["inputs","configurations","fault_sequences"],
  "All tokens, clients, hints and instants, and any store failure.",
  "Tests inspect one token at one instant.",
  [TS+"introspection.go","sdk/token/helpers.go","sdk/token/introspection.go"],[("Introspect",TS+"introspection.go")],["TokenIntrospectionResponse"])
p("B12","Revocation is effective, idempotent and limited to the token's owner",
  "Revoking a token marks that token, and no other, as revoked for that issuer so that it is never again usable; revoking an unknown token changes nothing. A client can only revoke tokens issued to it, and every failure, including a failing store, is reported as an error and leaves other tokens untouched.",
  ["inputs","configurations","fault_sequences"],
  "All tokens, owners, callers and store failures; histories of issue, revoke and lookup over the in-memory store.",
  "Tests never involve a second client nor a real store.",
  [TS+"revoke.go","server/storage/inmemory/token.go"],[("Revoke",TS+"revoke.go")],["TokenRevocationResponse","token store writes"])
p("B13","Every token traces back to one user's grant, whatever the order of calls",
  "Whatever sequence of authorizations, device approvals, code redemptions, refreshes, exchanges and revocations by any clients a server goes through, every token ever handed out names the subject of the one grant it derives from, the client that obtained it, and the scope, audience and key binding that follow from that grant. No call changes a token that others hold, except that a revocation by its owner or a rotation ends exactly that token, and a call succeeds exactly when the code or token it presents is alive, the caller's own (exchange: anyone's) and bound to no other key.",
  ["histories","inputs"],
  "All histories of calls, across the services and the stores they share, with any time passing between them.",
  "Tests make one call to one service over doubles; no test runs a history through several grants.",
  [TS+"service.go",TS+"generator.go","server/services/authorization/service.go","server/services/device/service.go","server/storage/inmemory/token.go"],[("Token",TS+"service.go"),("generateAccessToken",TS+"generator.go"),("Revoke","server/storage/inmemory/token.go")],["TokenResponse","TokenIntrospectionResponse"])
# ---------------------------------------------------------------- device service
p("C01","Device authorization registers a pending session with fresh codes",
  "A device authorization succeeds only for an authenticated client that is known and registered for the device grant, and stores one pending session, not yet approved, holding the client, the requested scope and audience, the device code and the user code that are returned to the device together with the stored lifetime. Any failure returns an error and no codes.",
  ["inputs","configurations","fault_sequences"],
  "All requests and clients and any failure of generators and store.",
  "Tests fix one client and one request.",
  ["server/services/device/service.go"],[("Authorize",  "server/services/device/service.go")],["DeviceAuthorization response","device session store"])
p("C02","A user code is approved once, unexpired, and records who approved it",
  "Approving a user code succeeds only if it names a session of that issuer that is still undecided and unexpired and a non-empty subject is given; it then records that subject and the approval on exactly that session. An expired, already decided or unknown session is never changed.",
  ["inputs","histories","fault_sequences"],
  "All device sessions and all instants, any store failure.",
  "Tests use single frozen sessions.",
  ["server/services/device/service.go"],[("Validate","server/services/device/service.go")],["ValidationResponse","device session store"])
p("C03","The device flow works end to end and each approval yields tokens once",
  "Over the shipped in-memory store, a device that was authorized, whose user code was approved by a subject before expiry, obtains an access token for that subject when it polls, and polling before the approval is answered authorization_pending. A device code that has been redeemed never yields tokens again.",
  ["histories","inputs"],
  "All histories of up to four steps (authorize, poll, approve, poll) with symbolic instants, clients and codes, over the real in-memory store.",
  "The services are only tested one call at a time against mocks, so a field nobody sets is never noticed.",
  ["server/services/device/service.go",TS+"grant_device_code.go","server/storage/inmemory/device_code_session.go"],
  [("device session life cycle","server/storage/inmemory/device_code_session.go")],["responses of both services"])
# ---------------------------------------------------------------- storage
p("D01","In-memory stores return exactly what was stored under issuer and key",
  "For each shipped in-memory store (code sessions, pushed requests, device sessions, tokens), an entry is returned for an issuer and key if and only if it was stored under exactly that issuer and key and has neither been deleted nor expired (the very instant of expiry is left open); entries of different issuers or different keys never affect one another. A missing entry is reported as not found.",
  ["inputs","histories"],
  "All issuers and keys up to a few bytes each (including ones that collide when concatenated), histories of store, delete and lookup by two issuers, at all instants around the expiry.",
  "The stores have no tests; collisions between concatenated names need adversarial inputs.",
  ["server/storage/inmemory/authorization_code_session.go","server/storage/inmemory/authorization_request.go","server/storage/inmemory/device_code_session.go","server/storage/inmemory/token.go"],
  [("keyed key derivation","server/storage/inmemory")],["storage API results"])
p("D02","The token store keeps value and identifier views consistent",
  "A token stored for an issuer is found by its value and by its identifier and both lookups return the same token; after revocation both report it revoked, after deletion both report it missing, and operations on an unknown token change nothing and report it as not found.",
  ["histories","inputs"],
  "All histories of up to four operations on two tokens and two issuers with symbolic identifiers and values.",
  "The store has no tests.",
  ["server/storage/inmemory/token.go"],[("Create/Get/GetByValue/Delete/Revoke","server/storage/inmemory/token.go")],["storage.Token results"])
p("D03","A used proof identifier is remembered for as long as its proof is acceptable",
  "A proof identifier registered with the proof store is reported as used at every later instant at which the proof that carried it could still be accepted, and an identifier that was never registered is never reported as used.",
  ["inputs","histories"],
  "All identifiers and all instants from registration to the end of the acceptance window of the proof.",
  "Needs the clock of the store and of the verifier varied together; no test touches the store.",
  ["server/storage/inmemory/proof.go","sdk/dpop/verifier.go"],[("Register/Exists/Delete","server/storage/inmemory/proof.go")],["dpop.Storage results"])
p("D04","Client and resource lookups return only what was registered",
  "A client or resource lookup returns the entry registered under exactly that identifier or URI, or under that name whatever its case, and reports anything else as not found; registering a client assigns it a non-empty identifier under which it can be read back.",
  ["inputs","histories"],
  "All identifiers of bounded length and histories of up to two registrations.",
  "No tests of these stores.",
  ["server/storage/inmemory/client.go","server/storage/inmemory/resource.go"],[("map lookup","server/storage/inmemory/client.go")],["storage.Client / storage.Resource results"])
# ---------------------------------------------------------------- dpop
p("E01","A proof is accepted only if fresh, self-signed, and for this request",
  "A DPoP proof is accepted only if its header declares the proof type and an allowed asymmetric algorithm and embeds a public key that verifies its signature, its method and URI claims equal the current request's method and URI (without query and fragment), its issue time lies within the acceptance window, its identifier is non-empty and unused, and any access token given is matched by its hash claim, any expected key binding by its key thumbprint. The value returned is the thumbprint of the key that signed the proof.",
  ["inputs","fault_sequences"],
  "All header values, claims, methods, URIs, access tokens, bindings and instants, with symbolic contents.",
  "Tests cover one bad claim at a time at a fixed instant.",
  ["sdk/dpop/verifier.go","sdk/dpop/url.go","sdk/token/jwt/embedded_verifier.go"],[("Verify","sdk/dpop/verifier.go")],["dpop.Verifier result"])
p("E02","A DPoP proof is never accepted twice",
  "Once a proof has been accepted, presenting the same proof again to that verifier is refused for as long as its issue time would still be acceptable, whatever the time between the two presentations, and of concurrent presentations at most one is accepted.",
  ["histories","inputs","schedules"],
  "All pairs of presentations with symbolic instants, over the in-memory proof store, sequentially and with two concurrent verifications interleaved at store calls.",
  "Tests mock the proof store and freeze time.",
  ["sdk/dpop/verifier.go","server/storage/inmemory/proof.go"],[("replay detection","sdk/dpop/verifier.go")],["dpop.Verifier result"])
p("E03","A proof made by the client library is accepted by the server library",
  "A proof made by the library's prover for a method, an absolute HTTP URL and an optional access token is accepted by the library's verifier for that same request when it is presented within the acceptance window for the first time, whatever query, fragment or escaped characters the URL contains.",
  ["inputs"],
  "All methods and URLs from a URL grammar with symbolic path, query and escapes; all instants within the window.",
  "Tests of prover and verifier are separate and use one URL without query.",
  ["sdk/dpop/prover.go","sdk/dpop/verifier.go","sdk/dpop/url.go"],[("htu normalisation","sdk/dpop/url.go")],["dpop.Prover + dpop.Verifier"])
# ---------------------------------------------------------------- client authentication
p("F01","private_key_jwt authenticates a client only by a valid assertion of its own",
  "A client is authenticated by assertion only if the assertion type is the JWT one, the assertion carries issuer, subject, audience, identifier and expiry, its issuer and subject both equal the identifier of a registered client, it is unexpired, and it is signed by a key of that client that is not reserved for encryption. A failure yields an error code and no client.",
  ["inputs","configurations","fault_sequences"],
  "All assertion claims, client registrations, key sets and instants.",
  "Tests use a few recorded assertions.",
  ["server/clientauthentication/private_key_jwt.go"],[("Authenticate","server/clientauthentication/private_key_jwt.go")],["AuthenticateResponse"])
p("F02","Attestation authenticates only the attested instance of the attested client",
  "A client attestation authenticates a client only if the attestation is signed by a registered issuer, unexpired, names a registered client, and is accompanied by an unexpired proof that is signed with the attested key, issued by the very client the attestation names, and carries an identifier and an audience. Any malformed or missing part yields an error and no client, never a crash.",
  ["inputs","configurations","fault_sequences"],
  "All attestation and proof claims, keys, registrations and instants, including absent and empty parts.",
  "The attestation code has no tests.",
  ["server/clientauthentication/client_attestation.go"],[("Authenticate","server/clientauthentication/client_attestation.go")],["AuthenticateResponse"])
# ---------------------------------------------------------------- tokens & jose
p("G01","Signed tokens verify only under an eligible key of the configured set",
  "Claims of a signed token are released only if the token was signed with an algorithm allowed by the verifier and by a key of the verifier's current key set that the token's key identifier designates and that is not reserved for encryption. An unavailable key set, a missing key or a bad signature is an error and releases nothing.",
  ["inputs","configurations","fault_sequences"],
  "All header algorithms, key identifiers, key sets of up to three keys with symbolic identifiers and uses, and any signing key.",
  "Tests use a single key set and a few tokens.",
  ["sdk/token/jwt/verifier.go","sdk/token/jwt/token_adapter.go","sdk/jwk/signature.go"],[("key selection","sdk/token/jwt/verifier.go")],["token.Verifier Claims/Verify"])
p("G02","Signed objects declare the media type their consumer requires",
  "Every signed object the library produces (access token, refresh token, client assertion, DPoP proof, JARM response, signed introspection, authorization request) declares the type, key identifier and algorithm its own consumer in the library requires, in each supported serialisation, and a missing, private-less or incompatible key is an error instead of an unsigned or mislabelled object.",
  ["inputs","configurations"],
  "All object kinds, algorithms and key sets with symbolic identifiers, including absent keys.",
  "Signer tests only look at the error result.",
  ["sdk/token/jwt/signer.go","sdk/token/jwt/builders.go","sdk/token/cwt/signer.go","sdk/dpop/api.go","sdk/jarm/api.go"],[("header construction","sdk/token/jwt/signer.go")],["token.Serializer output"])
p("G03","Token generators serialise only complete tokens and exactly their content",
  "The access-token and refresh-token generators produce a value only for a token with a valid issuer, subject, client, audience, scope, identifier and consistent times, and the claims signed equal the token's fields, including its key binding; anything else is an error and yields no value.",
  ["inputs"],
  "All tokens with symbolic fields.",
  "Tests fix a few tokens and mostly check errors.",
  ["sdk/token/access_token.go","sdk/token/refresh_token.go"],[("claims assembly","sdk/token/access_token.go")],["claims given to the serializer"])
p("G04","Signed introspection answers reveal nothing about inactive tokens",
  "The signed introspection answer of a token that is not usable says only that it is inactive, and that of a usable token states the fields of exactly that token, in the name of its issuer.",
  ["inputs"],
  "All tokens and instants with symbolic fields.",
  "Tests check one token.",
  ["sdk/token/introspection.go"],[("Generate","sdk/token/introspection.go")],["claims given to the serializer"])
p("G05","Client assertions are short-lived, unique and issued by the client",
  "A client assertion produced for a token request is issued by and about that client for the given audience, carries a fresh identifier and its issue time, and expires a short time after it was made; incomplete input is an error and yields no assertion.",
  ["inputs"],
  "All clients, audiences and instants.",
  "Tests check only error outcomes.",
  ["sdk/token/client_assertion.go"],[("Generate","sdk/token/client_assertion.go")],["claims given to the serializer"])
p("G06","A token is usable only within its validity period",
  "The usability check accepts a token only while the present time is neither before its not-before time nor after its expiry, and accepts it throughout that period (the very instant of expiry is left open); a missing token or a token without metadata is never usable.",
  ["inputs"],
  "All time stamps and all instants.",
  "Helpers are only sampled through other tests.",
  ["sdk/token/helpers.go"],[("IsUsable/IsExpired","sdk/token/helpers.go")],["sdk/token helpers"])
p("G07","Verifiable identifiers round-trip and cannot be forged",
  "An identifier issued by the verifiable generator verifies under the same secret and yields back exactly its payload, no string carrying a payload that was not issued under that secret verifies, and no input of any length or content makes verification or extraction crash.",
  ["inputs"],
  "All payloads, nonces and prefixes up to three characters; candidates which reuse an authentication code or alter one; all texts of up to eight bytes and all digit texts around the length of an identifier; the MAC and the key derivation treated as arbitrary collision-free functions.",
  "Tests try a few tampered strings; the crashing ones need a numeric overflow in the encoding.",
  ["sdk/token/verifiable/uuid.go","sdk/token/verifiable/helpers.go"],[("Generate/Verify/Extract","sdk/token/verifiable/uuid.go")],["verifiable API results"])
# ---------------------------------------------------------------- sdk
p("H01","PKCE accepts exactly the verifier that produced the challenge",
  "A code challenge made by the library validates with its own verifier and only with it: validation succeeds exactly when the challenge is the unpadded base64url SHA-256 of the verifier.",
  ["inputs"],
  "All verifiers and challenges of bounded length, SHA-256 treated as an arbitrary collision-free function.",
  "The package has no tests.",
  ["sdk/pkce/verifier.go"],[("Validate / CodeVerifier","sdk/pkce/verifier.go")],["pkce API"])
p("H02","Generated codes and references have the promised shape and validate",
  "Authorization codes, device codes, user codes, client identifiers, opaque tokens and request references have the promised length and alphabet for every state of the random source; what a generator produces is accepted by the same generator's validation, and validation accepts nothing else than that shape.",
  ["inputs"],
  "All outputs of the random source; all candidate strings up to 48 bytes for validation.",
  "Tests draw a few random values and never validate a generated reference.",
  ["sdk/generator/authorization_code.go","sdk/generator/device_code.go","sdk/generator/device_user_code.go","sdk/generator/request_uri.go","sdk/generator/client.go"],[("generators","sdk/generator")],["generator API"])
p("H03","Constant-time comparison is equality and string lists follow their contract",
  "The constant-time comparisons report equality exactly when both values are equal, for every pair of lengths; adding a value to a string list makes it contained without duplicates, removing one removes every occurrence of it (lists ignore case), and membership and containment queries agree with that.",
  ["inputs"],
  "All strings up to a few bytes and all lists up to three elements.",
  "Tests sample a dozen pairs.",
  ["sdk/types/compare.go","sdk/types/string_array.go","sdk/types/null.go"],[("SecureCompare, StringArray","sdk/types")],["types API"])
p("H04","Pairwise subjects are stable per sector and differ across sectors",
  "The pairwise subject of a user is the same for every client of one sector, depends on the sector, the subject and the salt only, and differs whenever the sector or the subject differs; a bad input is an error.",
  ["inputs"],
  "All sectors, subjects and salts of bounded length; the hash treated as collision-free.",
  "Tests pin a few values.",
  ["sdk/pairwise/hash.go"],[("Encode","sdk/pairwise/hash.go")],["pairwise API"])
p("H05","The shared random source is never left locked and never exceeds its range",
  "Every call on the shared random source releases it again, even when its argument is invalid and the call panics, so later calls still complete, bounded draws stay inside the requested range, and what is returned is what the source yields, so no randomness is lost under the lock.",
  ["inputs","histories"],
  "All methods, all arguments, all outputs of the underlying source, and a second call after each.",
  "Tests never call with invalid arguments and then call again.",
  ["sdk/randomness/locked_rand.go","sdk/randomness/global.go"],[("locking","sdk/randomness/locked_rand.go")],["randomness API"])
p("H06","Authorization responses survive signing and only genuine ones are decoded",
  "Decoding an encoded authorization response for the client it was made for returns the same code, state and issuer; a response is accepted only if its signature verifies, it is unexpired, and it was issued by the expected issuer for the expected client, and errors keep their code, description and state.",
  ["inputs"],
  "All responses, issuers, audiences and instants with symbolic contents.",
  "Encoder and decoder are tested separately with mocks.",
  ["sdk/jarm/encoder.go","sdk/jarm/decoder.go"],[("Encode/Decode","sdk/jarm")],["jarm API"])
p("H07","Signed authorization requests are decoded only from verified, well-formed ones",
  "An authorization request object is decoded only from a token whose signature verifies under an eligible configured key and whose content is a request document with parameters of the right types; every parameter that is encoded is decoded to the same value and no other parameter appears; a request that cannot be signed is an error and yields no object.",
  ["inputs"],
  "All requests with symbolic fields; all verification outcomes.",
  "Encoder and decoder are tested separately with fixed objects.",
  ["sdk/jwsreq/encoder.go","sdk/jwsreq/decoder.go"],[("Encode/Decode","sdk/jwsreq")],["jwsreq API"])
p("H08","Wire decoding of messages never crashes and encoding round-trips",
  "For every protocol message, decoding arbitrary bytes returns a message or an error and never crashes or reads outside the input, the announced size equals the encoded length, and decoding an encoded message gives back an equal message.",
  ["inputs"],
  "For each of the 39 generated codecs: all inputs of up to 4 bytes, any field tag followed by arbitrary bytes or extreme lengths, unknown fields of every wire type, and messages with any one field open (alone or with all others set), nested messages included.",
  "The generated codecs have no tests.",
  ["api/oidc/core/v1/error_vtproto.pb.go","api/oidc/token/v1/token_vtproto.pb.go","api/oidc/session/v1/session_vtproto.pb.go","api/oidc/flow/v1/flow_vtproto.pb.go","api/oidc/flow/v1/token_grant_vtproto.pb.go","api/oidc/client/v1/client_vtproto.pb.go"],[("MarshalVT/UnmarshalVT/SizeVT","api")],["generated codec API"])
p("H09","Encrypted token values contain what was signed and nothing leaks unencrypted",
  "The encrypting serializer gives its encrypter exactly the value signed by the inner serializer, with that value's content type, and returns exactly what the encrypter returned under its own content type; a failing or missing inner serializer or encrypter yields an error and no value.",
  ["inputs"],
  "All inner values, content types and encrypted values with symbolic contents, and every failure.",
  "Tests only check error outcomes.",
  ["sdk/token/encrypted.go"],[("Generate","sdk/token/encrypted.go")],["token.Generator output"])
# ---------------------------------------------------------------- client
p("K01","The client library refuses foreign, empty or malformed server answers",
  "Whatever bytes and status an authorization server answers with, the client library returns a result or an error and never crashes, uses server metadata only if it states the issuer that was asked for, and reports every error answer as an error.",
  ["inputs","fault_sequences"],
  "All status codes and a vocabulary of body shapes (null, empty, partial and complete documents with symbolic fields).",
  "The client has no tests.",
  ["client/http.go"],[("response handling","client/http.go")],["client API"])
# ---------------------------------------------------------------- example servers
p("X01","The example servers enforce sender-constrained tokens end to end",
  "The example authorization server hands out tokens and stores pushed authorization requests only for a client that authenticated (or a public client that names itself), refuses any presented DPoP proof that does not fit the request, demands a proof for pushed requests and from clients registered for bound tokens, binds the tokens to the key of the proof and reports that binding and the activity of a token truthfully on introspection; the example resource server admits a request only if the presented token introspects as active and, for a bound token, comes with a fresh proof by its key for this request and token, never as a plain bearer token.",
  ["inputs","fault_sequences"],
  "All outcomes of client authentication, proof verification and introspection.",
  "The examples have no tests.",
  ["examples/authorizationserver/handlers/token.go","examples/authorizationserver/handlers/token_introspection.go","examples/authorizationserver/handlers/par.go","examples/authorizationserver/middleware/client_auth.go","examples/resourceserver/middleware.go"],[("Token","examples/authorizationserver/handlers/token.go"),("Authorizer","examples/resourceserver/middleware.go")],["HTTP responses"])
p("X02","The strict profile only ever narrows what a client may register",
  "The strict server profile offers only its published application types, grants and client authentication methods, and its defaults are themselves among them.",
  ["inputs","configurations"],
  "All candidate values up to the longest allow-listed one.",
  "No tests.",
  ["server/profile"],[("strict profile","server/profile")],["profile API"])
p("X03","The example endpoints act only for the user and client they authenticated",
  "The example authorization endpoint issues a code only to a user that logged in, for a request object signed by the client it names, in that user's (pairwise, where asked for) name, and sends it only to the registered redirect URI as an answer that client can verify; the device page approves a pending device only for a logged-in user, in that user's name; the revocation endpoint revokes only a token of the client that authenticated.",
  ["inputs"],
  "All combinations of login, request object, method, client and session state.",
  "The examples have no tests.",
  ["examples/authorizationserver/handlers/authorization.go","examples/authorizationserver/handlers/device_validation.go","examples/authorizationserver/handlers/token_revocation.go","examples/authorizationserver/middleware/basic_auth.go"],[("Authorization","examples/authorizationserver/handlers/authorization.go"),("BasicAuthentication","examples/authorizationserver/middleware/basic_auth.go")],["HTTP responses"])
p("Z01","PASETO tokens carry the same guarantees as JWT tokens",
  "Tokens serialised as PASETO are verified only under an eligible key of the configured key set, declare the type their consumer requires, and round-trip their claims.",
  ["inputs"],"All claims and keys.","Package does not even build here.",
  ["sdk/token/paseto/signer.go"],[("Serialize","sdk/token/paseto/signer.go")],["token.Serializer output"])
with open(OUT,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
