// Package k01: the client library refuses foreign, empty or malformed server answers.
package k01

import (
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"zntr.io/solid/client"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Answer of the server to one request.
type answer struct {
	fail   bool // no answer at all
	status int
	body   string
	broken bool // the connection breaks after the body
}

type seen struct {
	method, url, body, ctype string
}

type server struct {
	answers []answer
	reqs    []seen
}

type brokenReader struct {
	r io.Reader
}

func (b *brokenReader) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		return n, errors.New("connection reset")
	}
	return n, err
}

func (s *server) RoundTrip(r *http.Request) (*http.Response, error) {
	q := seen{method: r.Method, url: r.URL.String(), ctype: r.Header.Get("Content-Type")}
	if r.Body != nil {
		b, err := io.ReadAll(r.Body)
		vs.Assert(err == nil, "request body cannot be read")
		q.body = string(b)
	}
	s.reqs = append(s.reqs, q)
	vs.Assert(len(s.reqs) <= len(s.answers), "more requests than needed")
	a := s.answers[len(s.reqs)-1]
	if a.fail {
		return nil, errors.New("no answer")
	}
	var body io.Reader = strings.NewReader(a.body)
	if a.broken {
		body = &brokenReader{body}
	}
	return &http.Response{StatusCode: a.status, Header: http.Header{}, Body: io.NopCloser(body), Request: r}, nil
}

func serve(as ...answer) *server {
	s := &server{answers: as}
	http.DefaultTransport = s
	return s
}

func doc(v any) string {
	b, err := json.Marshal(v)
	vs.Assert(err == nil, "no document")
	return string(b)
}

// Malformed are bodies that hold no object; an error in an answer that is not an object is one all the same.
var malformed = []string{"", "{", "[]", "\"x\"", "1", "{} trailing", "<html>", "{\"a\":}"}

func reply(name string) answer {
	return answer{fail: vs.Bool(name + ".fail"), status: vs.IntRange(name+".status", 100, 599)}
}

func opts() *client.Options {
	return &client.Options{ClientID: "c", Audience: "a", JWK: jt.JSON(jt.PrivJWK(2, "k", "sig"))}
}

// Keys is an answer of the key endpoint; good says whether it states usable keys at the instant now.
func keys(name string, now int64) (a answer, kids []string, exp uint64, good bool) {
	a = reply(name)
	exp = uint64(vs.Int64Range(name+".exp", 0, 1<<32))
	kid := vs.StrIn(name+".kid", 0, 2, jt.Printable)
	k := jt.JWK(0, kid, "sig")
	m := map[string]any{"exp": exp}
	shape := vs.Choose(name+".shape", 5+len(malformed))
	switch shape {
	case 0:
		m["keys"] = []any{k}
		kids = []string{kid}
	case 1:
		m["keys"] = []any{k, jt.JWK(1, "second", "sig")}
		kids = []string{kid, "second"}
	case 2:
		m["keys"] = []any{}
	case 3:
		// no member at all
	case 4:
		a.body = "null"
		return a, nil, 0, false
	default:
		a.body = malformed[shape-5]
		return a, nil, 0, false
	}
	a.body = doc(m)
	good = vs.And(!a.fail, a.status == 200, len(kids) > 0, vs.Or(exp == 0, exp >= uint64(now)))
	return a, kids, exp, good
}

// A client comes up only with the metadata and keys of the server.
//
//gosym:bounds 2 issuers and a malformed one, 15 body shapes for metadata (complete, partial, empty, null, malformed, ill-typed, interrupted) and 13 for keys, every status from 100 to 599, unreachable servers, every 32-bit key expiry
//gosym:cover up,down,meta,keys
func CheckStart() {
	now := stub.Now("now")
	iss := []string{"https://as.example", "https://as.example/tenant", "https://as.example\n"}
	which := vs.Choose("issuer", 3)
	asked := iss[which]
	stated := vs.Pick("stated", "https://as.example", "https://as.example/tenant", "", "https://other.example")
	a := reply("meta")
	shape := vs.Choose("meta.shape", 7+len(malformed))
	obj := true
	te, ie, ju := "https://as.example/token", "https://as.example/introspect", "https://as.example/keys"
	m := map[string]any{"issuer": stated, "jwks_uri": ju, "token_endpoint": te, "introspection_endpoint": ie}
	switch shape {
	case 0:
	case 1:
		m["unknown_member"] = []any{1}
	case 2:
		m = map[string]any{}
		stated, te, ie, ju = "", "", "", ""
	case 3:
		m["token_endpoint"] = 1
		obj = false
	case 4:
		a.broken, obj = true, false
	case 5:
		obj = false
	case 6:
		ju = "https://as.example/%"
		m["jwks_uri"] = ju
	default:
		obj = false
	}
	switch {
	case shape == 4:
		a.body = "{\"issuer\":"
	case shape == 5:
		a.body = "null"
	case shape >= 7:
		a.body = malformed[shape-7]
		// a complete empty object before other text
		if a.body == "{} trailing" {
			obj = true
			stated, te, ie, ju = "", "", "", ""
		}
	default:
		a.body = doc(m)
	}
	kx, _, _, kgood := keys("keys", now)
	s := serve(a, kx)
	c, err := client.HTTP(stub.Ctx(), asked, opts())
	good := vs.And(which != 2, obj, shape != 6, !a.fail, a.status == 200, kgood)
	if err != nil {
		vs.Assert(c == nil, "client and error")
		vs.Assert(!vs.And(good, stated == asked), "proper server refused")
		if len(s.reqs) < 2 {
			vs.Cover("meta")
		} else {
			vs.Cover("keys")
		}
		vs.Cover("down")
		return
	}
	vs.Assert(good, "client started on a bad answer")
	vs.Assert(c != nil, "neither client nor error")
	vs.Assert(len(s.reqs) == 2, "not one request each for metadata and keys")
	vs.Assert(vs.And(s.reqs[0].method == "GET", s.reqs[0].url == asked+"/.well-known/oauth-authorization-server"), "metadata of another server requested")
	vs.Assert(vs.And(s.reqs[1].method == "GET", s.reqs[1].url == ju), "keys of another server requested")
	got := c.ServerMetadata()
	vs.Assert(got != nil && vs.And(got.Issuer == stated, got.TokenEndpoint == te, got.IntrospectionEndpoint == ie, got.JwksUri == ju), "other metadata than the server's")
	vs.Assert(c.Issuer() == asked && c.ClientID() == "c" && c.Audience() == "a", "client for other parties than asked")
	if stated == asked {
		vs.Cover("up")
	}
	vs.Assert(stated == asked, "metadata of another issuer used")
}

// Up is a client of a server that answered properly at first; its keys have expired since.
func up(s *server) client.Client {
	now := time.Now().Unix()
	vs.SetNow(now - 10)
	rest := s.answers
	s.answers = append([]answer{
		{status: 200, body: doc(map[string]any{"issuer": "https://as.example", "jwks_uri": "https://as.example/keys", "token_endpoint": "https://as.example/token", "introspection_endpoint": "https://as.example/introspect"})},
		{status: 200, body: doc(map[string]any{"keys": []any{jt.JWK(1, "old", "sig")}, "exp": now - 5})},
	}, rest...)
	c, err := client.HTTP(stub.Ctx(), "https://as.example", opts())
	vs.Assert(err == nil && len(s.reqs) == 2, "no client")
	s.answers, s.reqs = rest, nil
	vs.SetNow(now)
	return c
}

// Keys are those of the last proper answer, and only until they expire.
//
//gosym:bounds two requests for keys at any two seconds, 13 body shapes, every status from 100 to 599, unreachable servers, every 32-bit key expiry
//gosym:cover fresh,cached,again,fail
func CheckKeys() {
	now := stub.Now("now")
	a, kids, exp, good := keys("a", now)
	later := now + vs.Int64Range("later", 0, 1<<33)
	b, kids2, exp2, good2 := keys("b", later)
	s := serve(a, b)
	c := up(s)
	set, e, err := c.PublicKeys(stub.Ctx())
	vs.Assert(len(s.reqs) == 1, "keys not requested")
	vs.Assert(vs.And(s.reqs[0].method == "GET", s.reqs[0].url == "https://as.example/keys"), "keys of another server requested")
	if err != nil {
		vs.Assert(!good, "proper keys refused")
		vs.Assert(set == nil, "keys and an error")
		vs.Cover("fail")
		return
	}
	vs.Assert(good, "improper answer taken for keys")
	vs.Assert(set != nil && len(set.Keys) == len(kids) && e == exp, "another key set than the server's")
	for i := range kids {
		vs.Assert(set.Keys[i].KeyID == kids[i], "another key than the server's")
	}
	vs.Cover("fresh")
	vs.SetNow(later)
	set, e, err = c.PublicKeys(stub.Ctx())
	if len(s.reqs) == 1 {
		vs.Assert(exp > uint64(later), "expired keys used")
		vs.Assert(err == nil && set != nil && len(set.Keys) == len(kids) && e == exp, "another key set than the cached one")
		for i := range kids {
			vs.Assert(set.Keys[i].KeyID == kids[i], "another key than the cached one")
		}
		vs.Cover("cached")
		return
	}
	if err != nil {
		vs.Assert(!good2, "proper new keys refused")
		vs.Assert(set == nil, "keys and an error")
		return
	}
	vs.Assert(good2, "improper answer taken for new keys")
	vs.Assert(set != nil && len(set.Keys) == len(kids2) && e == exp2, "another key set than the server's new one")
	for i := range kids2 {
		vs.Assert(set.Keys[i].KeyID == kids2[i], "another key than the server's new one")
	}
	vs.Cover("again")
}

// Post checks the request that asks the server.
func post(q seen, to string, want url.Values) {
	vs.Assert(q.method == "POST" && q.url == to, "request to another endpoint")
	vs.Assert(q.ctype == "application/x-www-form-urlencoded", "request in another format")
	form, err := url.ParseQuery(q.body)
	vs.Assert(err == nil, "request is not a form")
	for k, v := range want {
		vs.Assert(len(form[k]) == 1 && form[k][0] == v[0], "request parameter "+k+" missing or wrong")
	}
	vs.Assert(len(form) == len(want), "further request parameters")
}

// An error document.
func errDoc(name string, a *answer) {
	switch vs.Choose(name+".err", 2) {
	case 0:
		a.body = doc(map[string]any{"error": vs.StrIn(name+".code", 0, 3, jt.Printable), "error_description": "d"})
	}
}

// A token is what the server says about it, and an error answer is an error.
//
//gosym:bounds every status from 100 to 599, unreachable servers, 13 body shapes with symbolic members (identifiers of up to 2 printable characters, 32-bit times), 3 token values
//gosym:cover active,inactive,bound,fail
func CheckIntrospect() {
	stub.Now("now")
	a := reply("r")
	active := vs.Bool("active")
	sub, cid, scope, iss := vs.StrIn("sub", 0, 2, jt.Printable), vs.StrIn("cid", 0, 2, jt.Printable), vs.StrIn("scope", 0, 2, jt.Printable), vs.StrIn("iss", 0, 2, jt.Printable)
	aud, jti, acr, jkt := vs.StrIn("aud", 0, 2, jt.Printable), vs.StrIn("jti", 0, 2, jt.Printable), vs.StrIn("acr", 0, 2, jt.Printable), vs.StrIn("jkt", 0, 2, jt.Printable)
	exp, iat, nbf, at := uint64(vs.Int64Range("exp", 0, 1<<32)), uint64(vs.Int64Range("iat", 0, 1<<32)), uint64(vs.Int64Range("nbf", 0, 1<<32)), uint64(vs.Int64Range("at", 0, 1<<32))
	m := map[string]any{"active": active, "sub": sub, "client_id": cid, "scope": scope, "iss": iss, "aud": aud, "jti": jti, "exp": exp, "iat": iat, "nbf": nbf}
	bound, more, obj, full := false, false, true, true
	shape := vs.Choose("shape", 7+len(malformed))
	switch shape {
	case 0:
	case 1:
		m["cnf"] = map[string]any{"jkt": jkt}
		bound = true
	case 2:
		m["acr"], m["auth_time"], m["token_type"] = acr, at, "DPoP"
		more = true
	case 3:
		m = map[string]any{"active": active}
		full = false
	case 4:
		m = map[string]any{}
		active, full = false, false
	case 5:
		m["active"] = "true"
		obj = false
	default:
		obj = false
	}
	switch {
	case shape == 6:
		a.broken, a.body = true, "{\"active\":true"
	case shape >= 7:
		a.body = malformed[shape-7]
		if a.body == "{} trailing" {
			obj, active, full = true, false, false
		}
	default:
		a.body = doc(m)
	}
	s := serve(a)
	tok := []string{"t", "a+b/c=", "x y&z"}[vs.Choose("token", 3)]
	c := up(s)
	t, err := c.Introspect(stub.Ctx(), "as&sertion", tok)
	vs.Assert(len(s.reqs) == 1, "not one request")
	post(s.reqs[0], "https://as.example/introspect", url.Values{"token": {tok}, "client_assertion": {"as&sertion"}, "client_assertion_type": {"urn:ietf:params:oauth:client-assertion-type:jwt-bearer"}})
	good := vs.And(!a.fail, a.status == 200, obj)
	if err != nil {
		vs.Assert(t == nil, "token and an error")
		vs.Assert(!good, "proper answer refused")
		vs.Cover("fail")
		return
	}
	vs.Assert(good, "bad answer taken for a token")
	vs.Assert(t != nil && t.Value == tok && t.Issuer == "https://as.example", "another token than the one asked about")
	if !active {
		vs.Assert(t.Status != stub.Active, "token active without the server saying so")
		vs.Cover("inactive")
		return
	}
	vs.Assert(t.Status == stub.Active, "active token not active")
	vs.Assert(t.Metadata != nil, "active token without content")
	if t.Metadata == nil {
		return
	}
	d := t.Metadata
	if full {
		vs.Assert(vs.And(d.Subject == sub, d.ClientId == cid, d.Scope == scope, d.Audience == aud, d.Issuer == iss, t.TokenId == jti), "another token's content")
		vs.Assert(vs.And(d.ExpiresAt == exp, d.IssuedAt == iat, d.NotBefore == nbf), "another token's times")
	}
	if bound {
		vs.Assert(t.Confirmation != nil && t.Confirmation.Jkt == jkt, "key binding of the token lost")
		vs.Cover("bound")
	} else {
		vs.Assert(t.Confirmation == nil, "token bound to a key out of nowhere")
	}
	if more {
		vs.Assert(d.Acr != nil && *d.Acr == acr && d.AuthTime != nil && *d.AuthTime == at, "authentication context of the token lost")
	} else {
		vs.Assert(d.Acr == nil && d.AuthTime == nil, "authentication context out of nowhere")
	}
	vs.Cover("active")
}

// Client credentials are exchanged for exactly the token the server hands out.
//
//gosym:bounds every status from 100 to 599, unreachable servers, 12 body shapes with symbolic members
//gosym:cover ok,fail
func CheckCredentials() {
	stub.Now("now")
	a := reply("r")
	val, kind := vs.StrIn("value", 0, 2, jt.Printable), vs.StrIn("kind", 0, 2, jt.Printable)
	obj, full := true, true
	shape := vs.Choose("shape", 4+len(malformed))
	m := map[string]any{"access_token": val, "token_type": kind, "expires_in": 60}
	switch shape {
	case 0:
	case 1:
		m = map[string]any{}
		full = false
	case 2:
		m["access_token"] = 1
		obj = false
	default:
		obj = false
	}
	switch {
	case shape == 3:
		a.broken, a.body = true, "{\"access_token\":\"x\""
	case shape >= 4:
		a.body = malformed[shape-4]
		if a.body == "{} trailing" {
			obj, full = true, false
		}
	default:
		a.body = doc(m)
	}
	s := serve(a)
	c := up(s)
	t, err := c.ClientCredentials(stub.Ctx(), "as&sertion")
	vs.Assert(len(s.reqs) == 1, "not one request")
	post(s.reqs[0], "https://as.example/token", url.Values{"grant_type": {"client_credentials"}, "client_assertion": {"as&sertion"}, "client_assertion_type": {"urn:ietf:params:oauth:client-assertion-type:jwt-bearer"}})
	good := vs.And(!a.fail, a.status == 200, obj)
	if err != nil {
		vs.Assert(t == nil, "token and an error")
		vs.Assert(!good, "proper answer refused")
		vs.Cover("fail")
		return
	}
	vs.Assert(good, "bad answer taken for a token")
	vs.Assert(t != nil, "neither token nor error")
	if full {
		vs.Assert(vs.And(t.AccessToken == val, t.TokenType == kind), "another token than the server's")
	} else {
		vs.Assert(t.AccessToken == "", "token out of nowhere")
	}
	vs.Cover("ok")
}
