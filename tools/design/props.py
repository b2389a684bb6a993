D = {}
def p(i, how, why): D[i] = (how, why)
p("A01", "`authorization.Service.Authorize` runs on a request whose every field is symbolic, with client, store and generator stubs. Oracle: the list of conditions of the statement, written again in the harness over the same symbols (not the service's own validator); whenever a code is returned each condition must follow from the path condition, and an acceptable request with no fault must be granted.", "Tests take one value per field; a wrong length comparison, prefix match or missed combination of registration lists needs a particular value no table lists.")
p("A02", "Two harnesses: the response and the argument of the session store are compared with the request, field by field; scope words after granting are compared with a reference computation of offline_access under prompt.", "All prompts and all four-word scopes, not the two of the tests.")
p("A03", "Single references against an arbitrary stored entry with failing stores; a history of two pushed requests over the real in-memory store; two threads using one reference, all interleavings at locks up to the stated preemptions. Oracle: a ghost of who pushed what where; the log order of delete and code creation.", "Double use needs an interleaving or an order of operations which tests do not produce.")
p("A04", "`Register` with every field symbolic and arbitrary caller; oracle as A01 plus owner equality; stub store records what was registered.", "As A01.")
p("A05", "Both calls on nil, partial and arbitrary requests with failing dependencies: response non-nil, error XOR artefact, state echo, and no session left in the stub's log.", "Every failing point of every path, not the mocked ones.")
p("A06", "Every error constructor and builder call with symbolic state and description, two errors after one another, and the JSON form of each; oracle: the registered codes and what was given.", "Every pair of errors with arbitrary text; sharing between two errors.")
p("A07", "The real services over failing doubles that record whether a dependency truly failed; requests have at most one thing wrong, so their cause is known; oracle: server_error iff a dependency failed, else the code of the cause.", "A failure of one particular call, told apart from an absent entry.")
p("B01", "`token.Service.Token` dispatch over grant strings times payload types times registration lists; stub log tells which grant's store was used. Oracle: a table from grant type to payload and registration.", "Mixed grant type/payload pairs and all failing points.")
p("B02", "Redeeming with arbitrary session, client, redirect URI and verifier; SHA-256 is collision-free, so acceptance implies verifier identity. Both directions are asserted (everything right implies a token).", "Arbitrary challenge/verifier pairs; truncated or prefix comparisons need a particular value.")
p("B03", "Order of deletion and generation from the stub log; history over the real store; concurrent redemption with all bounded interleavings.", "One interleaving of two redemptions, a failing deletion.")
p("B04", "Every grant produces tokens from symbolic sessions at any time; the stored token is compared with the granted identity, lifetime and binding computed in the harness.", "Combination of grant, scope repetition, key confirmation.")
p("B05", "Log of the token store and generator stubs: the returned value was generated, stored with that value, under the issuer, before the return; each dependency may fail or yield an empty value.", "Fault points; aliasing of the stored token.")
p("B06", "Refresh with arbitrary stored token (status, type, expiry, owner, issuer) and request; oracle restates the conditions; scope inclusion is word-wise.", "Boundary instants and unusual status or type values.")
p("B07", "Bindings of old, request and new tokens; chain of refreshes over the real store with two keys.", "Multi-step chains with rotation.")
p("B08", "Polling with an arbitrary session, at any instant; error codes asserted per state.", "States and instants beyond those of the tests, e.g. denied or unknown status.")
p("B09", "client_credentials with arbitrary client and foreign fields in the request.", "Fields of other grants in the request.")
p("B10", "Exchange with arbitrary subject token and resources; narrowing of scope, audience and validity asserted on the stored token; failures must be errors, panics are violations.", "Validity arithmetic, odd status values.")
p("B11", "Introspection of an arbitrary stored token at any instant, arbitrary storage failures.", "Boundary instants, status values.")
p("B12", "Single revocation with arbitrary owner; history of three revocations over the real store followed by use of both tokens.", "Histories, cross-issuer identifiers.")
p("B13", "Authorization, device and token services over the real in-memory stores: two users' grants, then three calls of any kind with any token handed out so far; a reference bookkeeping (subject, client, scope, audience, key, lifetime, dead or alive of each token) decides each outcome, and all tokens are introspected at the end.", "Histories across services: state that leaks from one grant into another.")
p("C01", "Stub store records the session; compared with the request and the response.", "All failure points and registration lists.")
p("C02", "Arbitrary session, instant and subject; a history over the real store; two threads approving one code.", "Interleavings and repeated approval.")
p("C03", "Whole flow over the real services and the real in-memory store: histories of four steps by two clients with any distinct codes and gaps; thread approving against thread polling.", "Histories.")
p("D01", "The real stores under histories with symbolic issuers and keys; oracle: a ghost list of writes with expiry.", "Key collisions between issuer and value need particular strings.")
p("D02", "Token store under histories of revoke and delete, both views compared after each step, including values which equal digests or identifiers.", "As D01.")
p("D03", "Proof store with symbolic times: whatever proof was acceptable when registered is reported used while still acceptable.", "Time arithmetic at the window's edge.")
p("D04", "Registrations and lookups with symbolic names and identifiers; threads registering and looking up.", "Prefix or alias matches, interleavings.")
p("E01", "Verifier on proofs built from symbolic headers and claims; oracle restates RFC 9449 4.3 over the same symbols; both directions.", "Combination of claims, window edges, key kinds.")
p("E02", "Two or more presentations to one verifier over the real proof store with arbitrary gaps; concurrent presentations.", "Gaps at the window's edge; interleavings.")
p("E03", "The real prover's proof is given to the real verifier for URLs in the product of origins, paths, queries and fragments; times symbolic.", "Escaping and case combinations.")
p("F01", "Assertions with symbolic claims, key sets and algorithms against two registered clients; oracle restates the conditions; both directions.", "Times that wrap, key identifier collisions, odd key sets.")
p("F02", "As F01 for attestation and proof, four clients and keys; panics are violations.", "Cross combinations of two signed objects.")
p("G01", "JWT verifier over key sets with symbolic identifiers, uses and algorithms, rotation between two verifications; oracle restates eligibility.", "Key identifier collisions and duplicates, missing sets.")
p("G02", "Each JWT and CWT signer signs symbolic claims; the object is taken apart and its type, algorithm, key identifier and payload compared, then given to every consumer; unusable keys must yield an error.", "Combination of kinds, keys and failing providers.")
p("G03", "Generators with a recording serializer on arbitrary tokens; oracle restates completeness and times; the claims are compared with the token.", "Time relations, printable and length borders.")
p("G04", "Signed introspection with a recording serializer; an inactive token's answer may hold only issuer, issue time and active=false.", "Instants and status values.")
p("G05", "Token generator and client library assertion with a recording serializer and with the real signer.", "Two assertions at related instants, incomplete input.")
p("G06", "`IsUsable` over all 64-bit times; oracle is unsigned comparison.", "Wrapping comparisons.")
p("G07", "Verifiable identifiers with symbolic payload, nonce and code; HMAC is collision-free; candidates reuse codes of issued identifiers with anything else changed.", "Forgeries are particular strings; crashes need particular lengths.")
p("H01", "PKCE generation and validation; SHA-256 collision-free, base64url executed.", "All challenges.")
p("H02", "Generators for all random outputs; validators for all candidates of the bordering lengths; oracle is the shape.", "All byte values at all positions.")
p("H03", "Comparison of all pairs in the lengths; list operations against a reference.", "All pairs; borders of lengths.")
p("H04", "Pairwise subject function with collision-free hash.", "All pairs.")
p("H05", "Random helpers with arbitrary draws, including panicking arguments, on the shared source and from two threads; a lock left held shows as deadlock.", "Order of a panic and a later call; rejection loops.")
p("H06", "Real JARM encoder and decoder over the real JWT signer and verifier; claims arbitrary in CheckGenuine.", "Times at the edge; foreign audiences.")
p("H07", "Real request-object encoder and decoder over the real JWT signer and verifier; 23 parameters compared one by one.", "Absent and empty parameters, one at a time.")
p("H08", "For every message type of the API (harness generated from the descriptors by `tools/genh08.py`) the generated `SizeVT`, `MarshalVT`, `UnmarshalVT` run on symbolic fields and on arbitrary bytes; a crash, an out-of-range read or a difference is a violation.", "Malformed sizes at the 31/32/63/64-bit limits.")
p("H09", "Encrypting serializer with recording inner serializer and encrypter.", "Absent, nil and failing parts.")
p("K01", "The real client over a modelled transport with every status and the bodies of the bounds; oracle: result XOR error, identity of the issuer.", "Status/body combinations, interrupted bodies.")
p("X01", "The example handlers and middleware run over the real token and authorization services, the real proof verifier and in-memory proof store; requests carry every combination of ways to authenticate and to prove; the resource server (a `main` package) is encoded from a copy of its files under another package clause. Oracle: which combinations may be answered with a token, what is stored, what is reported, and when the next handler may run.", "Combinations of client, assertion, proof, header scheme, introspection answer and time.")
p("X02", "The strict profile over arbitrary strings; oracle: membership in the published lists.", "All strings.")
p("X03", "As X01: the handlers and middleware of the example server over the real services, JARM encoder and decoder and pairwise function, with every combination of login, request object, method and client; oracle: who may cause a code, an approval or a revocation and in whose name.", "Combinations of login, signer and session state.")
