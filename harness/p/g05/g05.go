// Package g05: client assertions are short-lived, unique and issued by the client.
package g05

import (
	"encoding/json"
	"io"
	"net/http"
	"strings"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/client"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

func printable(s string) bool {
	r := s != ""
	for i := 0; i < len(s); i++ {
		r = vs.And(r, s[i] >= 0x20, s[i] <= 0x7e)
	}
	return r
}

type claims struct {
	Iss string `json:"iss"`
	Sub string `json:"sub"`
	Aud string `json:"aud"`
	Exp uint64 `json:"exp"`
	Nbf uint64 `json:"nbf"`
	Iat uint64 `json:"iat"`
	JTI string `json:"jti"`
}

// The generator refuses incomplete input and otherwise states exactly what it was given.
//
//gosym:bounds printable identifiers of up to 2 bytes, subjects and issuers of up to 2 arbitrary bytes, 6 audiences, every 32-bit time stamp, every second between 2001 and 2061, token and metadata absent, a serializer that fails or returns any value of up to 2 bytes
//gosym:cover missing,refused,fail,ok
func CheckGenerate() {
	now := stub.Now("now")
	s := &stub.Serializer{Out: vs.Str("out", 2), Fail: vs.Bool("fail")}
	g := token.ClientAssertion(s)
	t := &tokenv1.Token{
		TokenId: vs.StrIn("jti", 0, 2, jt.Printable), Confirmation: stub.Confirm("cnf"),
		Metadata: &tokenv1.TokenMeta{
			Issuer: vs.Str("iss", 2), Subject: vs.Str("sub", 2), Audience: vs.Pick("aud", "https://as.example", "https://as.example/token", "", "as", "https://", "http://as.example:1/x?y#z"),
			IssuedAt: uint64(vs.Int64Range("iat", 0, 1<<32)), NotBefore: uint64(vs.Int64Range("nbf", 0, 1<<32)), ExpiresAt: uint64(vs.Int64Range("exp", 0, 1<<32)),
		},
	}
	vs.Fill("token", t, 4, "Confirmation")
	vs.Fill("meta", t.Metadata, 4)
	in := t
	switch vs.Choose("shape", 3) {
	case 1:
		in = nil
	case 2:
		t.Metadata = nil
	}
	m := t.Metadata
	before := vs.Snapshot(t)
	v, err := g.Generate(stub.Ctx(), in)
	vs.Assert(vs.Same(t, before), "making an assertion changed the input")
	if in == nil || m == nil {
		vs.Assert(err != nil && v == "" && s.Calls == 0, "assertion without input")
		vs.Cover("missing")
		return
	}
	url := vs.Or(m.Audience == "https://as.example", m.Audience == "https://as.example/token", m.Audience == "http://as.example:1/x?y#z")
	whole := vs.And(url, t.TokenId != "", printable(m.Subject), m.Subject == m.Issuer, m.IssuedAt > 0, m.IssuedAt <= uint64(now), m.ExpiresAt >= m.IssuedAt, m.ExpiresAt <= m.IssuedAt+2*3600)
	if s.Calls == 0 {
		vs.Assert(err != nil && v == "", "assertion without serialisation")
		vs.Assert(!whole, "complete input refused")
		vs.Cover("refused")
		return
	}
	vs.Assert(whole, "assertion from incomplete input")
	vs.Assert(s.Calls == 1, "serialised more than once")
	var c claims
	got := s.Decode(&c)
	vs.Assert(vs.And(c.Iss == m.Issuer, c.Sub == m.Subject, c.Aud == m.Audience, c.JTI == t.TokenId, c.Exp == m.ExpiresAt, c.Iat == m.IssuedAt), "assertion states something else than its input")
	vs.Assert(c.Nbf == m.NotBefore, "assertion with another start")
	vs.Assert(len(got) <= 7, "claims beyond the input")
	if s.Fail {
		vs.Assert(err != nil && v == "", "assertion despite a failed serialisation")
		vs.Cover("fail")
		return
	}
	vs.Assert(err == nil && v == s.Out, "another assertion than the serialised one")
	vs.Cover("ok")
}

// server answers with its metadata and keys.
type server struct{}

func (server) RoundTrip(r *http.Request) (*http.Response, error) {
	body := "{\"jwks_uri\":\"https://as.example/keys\",\"token_endpoint\":\"https://as.example/token\"}"
	if r.URL.Path == "/keys" {
		body = string(jt.JSON(map[string]any{"keys": []any{jt.JWK(1, "other", "sig")}}))
	}
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(body)), Request: r}, nil
}

// The client's own assertions.
//
//gosym:bounds client identifiers of up to 3 printable characters, issuers with a path of up to 3 characters or none, two assertions at any two seconds, 2 keys of which one fits the fixed algorithm, an undecodable key
//gosym:cover ok,unfit,undecodable
func CheckClient() {
	now := stub.Now("now")
	cid, iss := vs.StrIn("cid", 0, 3, jt.Printable), "https://as.example"
	if n := vs.Choose("iss", 4); n > 0 {
		iss += "/" + vs.StrIn("tenant", n, n, "aA0-._~")
	}
	opts := &client.Options{ClientID: cid}
	shape := vs.Choose("key", 3)
	k := []int{2, 0, 0}[shape]
	opts.JWK = jt.JSON(jt.PrivJWK(k, "k", "sig"))
	if shape == 2 {
		opts.JWK = []byte("{")
	}
	http.DefaultTransport = server{}
	c, err := client.HTTP(stub.Ctx(), iss, opts)
	vs.Assert(err == nil, "no client")
	if err != nil {
		return
	}
	a, err := c.Assertion()
	if shape > 0 {
		vs.Assert(err != nil && a == "", "assertion with an unsuitable key")
		if shape == 1 {
			vs.Cover("unfit")
		} else {
			vs.Cover("undecodable")
		}
		return
	}
	vs.Assert(err == nil, "no assertion")
	if err != nil {
		return
	}
	first := read(a)
	check(first, cid, iss, now, k, a)
	later := now + vs.Int64Range("later", 0, 1000)
	vs.SetNow(later)
	b, err := c.Assertion()
	vs.Assert(err == nil, "no second assertion")
	second := read(b)
	check(second, cid, iss, later, k, b)
	vs.Assert(len(first.JTI) >= 8, "identifier too short to be fresh")
	vs.Possible(first.JTI != second.JTI, "identifiers are not drawn afresh")
	vs.Cover("ok")
}

func read(a string) claims {
	h, c, ok := jt.Parts(a)
	vs.Assert(ok, "not a signed object")
	kid, _ := h["kid"].(string)
	alg, _ := h["alg"].(string)
	vs.Assert(vs.And(kid == "k", alg == "ES384"), "header of another key")
	b, err := json.Marshal(c)
	vs.Assert(err == nil, "claims without a JSON form")
	var x claims
	vs.Assert(json.Unmarshal(b, &x) == nil, "claims do not decode")
	return x
}

func check(c claims, cid, iss string, now int64, k int, a string) {
	vs.Assert(vs.And(c.Iss == cid, c.Sub == cid), "assertion of another client")
	vs.Assert(c.Aud == iss, "assertion for another server")
	vs.Assert(c.Iat == uint64(now), "assertion issued at another instant")
	vs.Assert(vs.And(c.Exp > uint64(now), c.Exp <= uint64(now)+300), "assertion does not expire shortly")
}
