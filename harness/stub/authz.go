package stub

import (
	"strings"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/zzverif/vs"
)

// Vocabulary of the harnesses.
const (
	Issuer  = "https://as.example"
	Issuer2 = "https://as.example/2"
	Redir   = "https://app.example/cb"
	Redir2  = "https://app.example/cb/"
)

// Authz is an authorization service over doubles.
type Authz struct {
	L        *Log
	Clients  *Clients
	Requests *Requests
	Sessions *Sessions
	Code     *Gen
	URI      *Gen
	Svc      services.Authorization
}

// NewAuthz builds the service.
func NewAuthz(mayFail bool, clients ...*clientv1.Client) *Authz {
	l := &Log{MayFail: mayFail}
	a := &Authz{
		L:        l,
		Clients:  &Clients{L: l, List: clients},
		Requests: &Requests{L: l, TTL: vs.Uint64("par.ttl")},
		Sessions: &Sessions{L: l, TTL: vs.Uint64("code.ttl")},
		Code:     &Gen{L: l, Name: "code", Value: vs.StrRange("code", 1, 4)},
		URI:      &Gen{L: l, Name: "uri", Value: vs.StrRange("uri", 1, 4), Bad: "bad"},
	}
	for _, c := range clients {
		vs.Fill("client", c, FillMax)
	}
	a.Svc = authorization.New(a.Clients, a.Requests, a.Sessions, a.Code, a.URI)
	return a
}

// Ptr is a pointer to s.
func Ptr(s string) *string { return &s }

// Opt is nil or a pointer to s.
func Opt(label, s string) *string {
	if vs.Bool(label + ".given") {
		return &s
	}
	return nil
}

// Client is a client with symbolic registration lists of two entries each.
func Client(p string) *clientv1.Client {
	return &clientv1.Client{
		ClientId:      vs.StrRange(p+".id", 1, 2),
		GrantTypes:    []string{vs.Pick(p+".grant", "authorization_code", "refresh_token", "client_credentials", ""), vs.Pick(p+".grant", "implicit", "authorization_code")},
		ResponseTypes: []string{vs.StrIn(p+".rt", 0, 5, "CODEcodetkn_"), vs.Pick(p+".rt", "code", "token", "id_token")},
		ResponseModes: []string{vs.Pick(p+".rm", modes...), vs.Pick(p+".rm", modes...)},
		RedirectUris:  []string{vs.Pick(p+".ru", Redir, Redir2, "https://APP.example/cb", Redir+"#", ""), vs.Pick(p+".ru", Redir2, Redir, "/cb", "cb")},
	}
}

var modes = []string{"query", "fragment", "form_post", "query.jwt", "fragment.jwt", "form_post.jwt", "jwt", "web_message", ""}

// ArbitraryRequest has every field symbolic.
func ArbitraryRequest(p string) *flowv1.AuthorizationRequest {
	return Open(p, &flowv1.AuthorizationRequest{
		State:               vs.Str(p+".state", 34),
		Nonce:               vs.Str(p+".nonce", 9),
		Scope:               vs.Pick(p+".scope", "", "openid", "openid offline_access", "profile", "openid email offline_access"),
		ResponseType:        vs.StrIn(p+".rt", 0, 6, "CODEcodetkn_ "),
		ClientId:            vs.Str(p+".cid", 2),
		RedirectUri:         vs.Pick(p+".ru", Redir, Redir2, "", "cb", "/cb", "https://app.example/%zz", "https://APP.example/cb"),
		ResponseMode:        Opt(p+".rm", vs.Pick(p+".rm", append([]string{"Query"}, modes...)...)),
		CodeChallenge:       vs.Str(p+".cc", 45),
		CodeChallengeMethod: vs.Str(p+".ccm", 5),
		Audience:            vs.Str(p+".aud", 1),
		Prompt:              Opt(p+".prompt", vs.Pick(p+".prompt", "consent", "login", "", "none")),
	})
}

// FillMax is the length of the strings of fields that a harness leaves open.
const FillMax = 12

// Open leaves every unset field of a request open, but those the harnesses decide.
func Open(p string, r *flowv1.AuthorizationRequest) *flowv1.AuthorizationRequest {
	vs.Fill(p, r, FillMax, "Scope", "Prompt", "ResponseMode", "Request", "RequestUri")
	return r
}

// ValidURI states which redirect URIs of the vocabulary are syntactically valid.
func ValidURI(u string) bool {
	return vs.Or(u == Redir, u == Redir2, u == "/cb", u == "https://APP.example/cb")
}

func anyFold(l []string, x string) bool {
	r := false
	for _, v := range l {
		r = vs.Or(r, strings.EqualFold(v, x))
	}
	return r
}

func anyEq(l []string, x string) bool {
	r := false
	for _, v := range l {
		r = vs.Or(r, v == x)
	}
	return r
}

// Acceptable is the rule of the authorization endpoint, stated independently.
func Acceptable(r *flowv1.AuthorizationRequest, c *clientv1.Client) bool {
	modeOK, mode := true, ""
	if r.ResponseMode != nil {
		mode = *r.ResponseMode
		known := vs.Or(mode == "query", mode == "fragment", mode == "form_post", mode == "query.jwt", mode == "fragment.jwt", mode == "form_post.jwt", mode == "jwt")
		direct := anyFold(c.ResponseModes, mode)
		viaCode := vs.And(r.ResponseType == "code", anyFold(c.ResponseModes, "query.jwt"))
		viaToken := vs.And(r.ResponseType == "token", anyFold(c.ResponseModes, "fragment.jwt"))
		modeOK = vs.And(known, vs.Or(vs.And(mode != "jwt", direct), vs.And(mode == "jwt", vs.Or(viaCode, viaToken))))
	}
	return vs.And(
		len(r.State) >= 32, len(r.Nonce) >= 8, r.Audience != "", r.Scope != "",
		len(r.CodeChallenge) == 43, r.CodeChallengeMethod == "S256",
		ValidURI(r.RedirectUri),
		vs.Or(r.ResponseType == "code", r.ResponseType == "token"),
		modeOK,
		r.ClientId != "", r.ClientId == c.ClientId,
		anyFold(c.GrantTypes, "authorization_code"),
		anyFold(c.ResponseTypes, r.ResponseType),
		anyEq(c.RedirectUris, r.RedirectUri),
	)
}

// Words is any list of words of the vocabulary, up to n.
func Words(label string, n int, vocabulary ...string) []string {
	var l []string
	k := vs.Choose(label+".n", n+1)
	for i := 0; i < k; i++ {
		l = append(l, vocabulary[vs.Choose(label+".w", len(vocabulary))])
	}
	return l
}

// GoodClient accepts everything GoodRequest may ask.
func GoodClient(id string) *clientv1.Client {
	return &clientv1.Client{
		ClientId:      id,
		GrantTypes:    []string{"authorization_code"},
		ResponseTypes: []string{"code", "token"},
		ResponseModes: []string{"query", "fragment", "form_post", "query.jwt", "fragment.jwt", "form_post.jwt"},
		RedirectUris:  []string{Redir, Redir2},
	}
}

// GoodRequest is any acceptable request of the client.
func GoodRequest(p, client string) *flowv1.AuthorizationRequest {
	return Open(p, &flowv1.AuthorizationRequest{
		State:               vs.StrRange(p+".state", 32, 33),
		Nonce:               vs.StrRange(p+".nonce", 8, 9),
		Scope:               "openid",
		ResponseType:        vs.Pick(p+".rt", "code", "token"),
		ClientId:            client,
		RedirectUri:         vs.Pick(p+".ru", Redir, Redir2),
		ResponseMode:        Opt(p+".rm", vs.Pick(p+".rm", "query", "fragment", "form_post", "query.jwt", "fragment.jwt", "form_post.jwt", "jwt")),
		CodeChallenge:       vs.StrRange(p+".cc", 43, 43),
		CodeChallengeMethod: "S256",
		Audience:            vs.StrRange(p+".aud", 1, 2),
		Prompt:              Opt(p+".prompt", vs.Pick(p+".prompt", "consent", "login", "")),
	})
}

// Deref is the value of an optional string.
func Deref(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}

// SameRequest compares everything but the mode and the scope.
func SameRequest(a, b *flowv1.AuthorizationRequest) bool {
	x := vs.Snapshot(a).(*flowv1.AuthorizationRequest)
	x.ResponseMode, x.Scope = b.ResponseMode, b.Scope
	return vs.Same(x, b)
}

// EffectiveMode is the response mode an accepted request stands for.
func EffectiveMode(r *flowv1.AuthorizationRequest) string {
	m := Deref(r.ResponseMode)
	if m != "jwt" {
		return m
	}
	if r.ResponseType == "code" {
		return "query.jwt"
	}
	return "fragment.jwt"
}

// SamePtr compares two optional strings.
func SamePtr(a, b *string) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

// PlainRequest is a right request of a client registered like GoodClient.
func PlainRequest(client string) *flowv1.AuthorizationRequest {
	return &flowv1.AuthorizationRequest{
		ClientId: client, Audience: "aud", ResponseType: "code", RedirectUri: Redir, State: "oESIiuoybVxAJ5fAKmxxM6s2CnVic6zU", Nonce: "XDwbBH4MokU8BmrZ", Scope: "openid",
		CodeChallenge: Challenge(Verifier), CodeChallengeMethod: "S256", ResponseMode: Ptr("query"),
	}
}
