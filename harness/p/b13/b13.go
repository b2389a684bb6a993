// Package b13: every token traces back to a user's grant, whatever the order of calls.
package b13

import (
	"context"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/server/services/device"
	"zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// codes hands out distinct constant codes.
type codes struct {
	p string
	n int
}

func (c *codes) Generate(context.Context, string) (string, error) {
	c.n++
	return c.p + string(rune('0'+c.n)), nil
}

func (c *codes) Validate(context.Context, string, string) error { return nil }

const (
	week     = 7 * 86400
	resource = "urn:example:backend-api"
)

// tok is what is known about a token that was handed out.
type tok struct {
	value, client, subject, scope, aud, key string
	typ                                     tokenv1.TokenType
	from, till                              int64
	dead                                    bool
}

// code is an authorization code.
type code struct {
	value, client, subject, scope string
	spent                         bool
}

type world struct {
	now, start int64
	authz      services.Authorization
	dev        services.Device
	svc        services.Token
	toks       []*tok
	codes      []*code
	ids        []string
}

func open() *world {
	w := &world{now: stub.Now("now")}
	w.start = w.now
	l := &stub.Log{}
	list := []*clientv1.Client{stub.AllGrants("c"), stub.AllGrants("d")}
	cl := &stub.Clients{L: l, List: list}
	reqs, sess, devs := inmemory.AuthorizationRequests(), inmemory.AuthorizationCodeSessions(), inmemory.DeviceCodeSessions()
	w.authz = authorization.New(cl, reqs, sess, &codes{p: "code"}, &codes{p: "uri"})
	w.dev = device.New(cl, devs, &codes{p: "dev"}, &codes{p: "usr"})
	w.svc = token.New(&stub.TokenGen{L: l, Name: "at", Values: []string{"at1", "at2", "at3", "at4", "at5", "at6"}}, &stub.TokenGen{L: l, Name: "rt", Values: []string{"rt1", "rt2", "rt3", "rt4", "rt5", "rt6"}},
		cl, reqs, sess, devs, inmemory.Tokens(), inmemory.Resources())
	return w
}

func caller(id string) *clientv1.Client { return &clientv1.Client{ClientId: id} }

// authorize has the subject grant the client the scope.
func (w *world) authorize(client, subject, scope string) {
	r := stub.PlainRequest(client)
	r.Scope, r.Audience, r.Prompt = scope, "aud-"+client, stub.Ptr("consent")
	res, err := w.authz.Authorize(stub.Ctx(), &flowv1.AuthorizeRequest{Issuer: stub.Issuer, Subject: subject, Client: caller(client), Request: r})
	vs.Assert(err == nil && res.GetCode() != "", "right authorization refused")
	if err == nil {
		w.codes = append(w.codes, &code{value: res.Code, client: client, subject: subject, scope: scope})
	}
}

// take records a token that was handed out, after comparing it with what it must be.
func (w *world) take(x *tokenv1.Token, want tok) {
	vs.Assert(x != nil && x.Metadata != nil, "no token")
	if x == nil || x.Metadata == nil {
		return
	}
	m := x.Metadata
	vs.Assert(x.TokenType == want.typ && x.Status == stub.Active, "another kind of token")
	vs.Assert(vs.And(m.Issuer == stub.Issuer, m.Subject == want.subject, m.ClientId == want.client, m.Scope == want.scope, m.Audience == want.aud), "token of another grant")
	vs.Assert(x.GetConfirmation().GetJkt() == want.key, "token bound to another key")
	want.value, want.from, want.till = x.Value, int64(m.NotBefore), int64(m.ExpiresAt)
	for _, o := range w.toks {
		vs.Assert(o.value != x.Value, "token handed out twice")
	}
	// token identifiers are drawn at random: no two are equal
	for _, id := range w.ids {
		vs.Assume(id != x.TokenId)
	}
	w.ids = append(w.ids, x.TokenId)
	w.toks = append(w.toks, &want)
}

// pair records the outcome of a code or device grant.
func (w *world) pair(res *flowv1.TokenResponse, g tok) {
	g.typ = stub.Access
	w.take(res.AccessToken, g)
	vs.Assert((res.RefreshToken != nil) == stub.HasWord(g.scope, "offline_access"), "refresh token not as granted")
	if res.RefreshToken != nil {
		g.typ = stub.Refresh
		w.take(res.RefreshToken, g)
	}
}

func (w *world) call(who, key, grant string, fill func(*flowv1.TokenRequest)) (*flowv1.TokenResponse, error) {
	in := &flowv1.TokenRequest{Issuer: stub.Issuer, Client: caller(who), GrantType: grant}
	if key != "" {
		in.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: key}
	}
	fill(in)
	res, err := w.svc.Token(stub.Ctx(), in)
	vs.Assert(err == nil || (res != nil && stub.NoTokens(res)), "refused request returned a token")
	return res, err
}

func (w *world) redeem(k *code, who, key string) {
	res, err := w.call(who, key, stub.GrantCode, func(in *flowv1.TokenRequest) {
		in.Grant = &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: k.value, RedirectUri: stub.Redir, CodeVerifier: stub.Verifier}}
	})
	if err == nil {
		vs.Assert(!k.spent, "code redeemed twice")
		vs.Assert(who == k.client, "code redeemed by another client")
		vs.Assert(w.now <= w.start+60, "expired code redeemed")
		w.pair(res, tok{client: k.client, subject: k.subject, scope: k.scope, aud: "aud-" + k.client, key: key})
		vs.Cover("redeemed")
	} else {
		vs.Assert(vs.Or(k.spent, who != k.client, w.now >= w.start+60), "right code refused")
		if k.spent {
			vs.Cover("replay")
		}
	}
	k.spent = true
}

func (w *world) refresh(x *tok, who, key string) {
	res, err := w.call(who, key, stub.GrantRefresh, func(in *flowv1.TokenRequest) {
		in.Grant = &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: x.value}}
	})
	right := !x.dead && x.typ == stub.Refresh && who == x.client && (x.key == "" || x.key == key)
	if err != nil {
		vs.Assert(!right || w.now > x.till, "right refresh refused")
		return
	}
	vs.Assert(right, "refresh with a token that is dead, foreign, bound to another key or no refresh token")
	vs.Assert(w.now <= x.till, "refresh with an expired token")
	g := *x
	if g.key == "" {
		g.key = key
	}
	g.typ = stub.Access
	w.take(res.AccessToken, g)
	if res.RefreshToken != nil {
		g.typ = stub.Refresh
		w.take(res.RefreshToken, g)
		x.dead = true
		vs.Cover("rotated")
	}
	vs.Cover("refreshed")
}

func (w *world) exchange(x *tok, who, key string, narrow bool) {
	in := &flowv1.GrantTokenExchange{SubjectToken: x.value, SubjectTokenType: stub.ATType}
	res, err := w.call(who, key, stub.GrantExchange, func(r *flowv1.TokenRequest) {
		r.Grant = &flowv1.TokenRequest_TokenExchange{TokenExchange: in}
		if narrow {
			r.Scope, r.Audience = stub.Ptr("openid"), stub.Ptr(resource)
		}
	})
	right := !x.dead && x.typ == stub.Access
	if err != nil {
		vs.Assert(vs.Or(!right, w.now > x.till, w.now < x.from), "right exchange refused")
		return
	}
	vs.Assert(right, "exchange of a token that is dead or no access token")
	vs.Assert(vs.And(w.now >= x.from, w.now <= x.till), "exchange of a token out of its validity")
	g := *x
	g.client = who
	if narrow {
		g.scope, g.aud = "openid", resource
	}
	if g.key == "" {
		g.key = key
	}
	w.take(res.AccessToken, g)
	vs.Assert(res.RefreshToken == nil && w.toks[len(w.toks)-1].till <= x.till, "exchange outlives the subject token")
	vs.Cover("exchanged")
}

func (w *world) revoke(x *tok, who string) {
	_, err := w.svc.Revoke(stub.Ctx(), &tokenv1.RevokeRequest{Issuer: stub.Issuer, Client: caller(who), Token: x.value})
	vs.Assert((err == nil) == (who == x.client), "revocation by another client, or own token not revoked")
	if who == x.client {
		x.dead = true
		vs.Cover("revoked")
	}
}

// final compares every token with what is known about it.
func (w *world) final() {
	for _, x := range w.toks {
		res, err := w.svc.Introspect(stub.Ctx(), &tokenv1.IntrospectRequest{Issuer: stub.Issuer, Client: caller("d"), Token: x.value})
		vs.Assert(err == nil && res.GetToken() != nil, "token lost")
		t := res.GetToken()
		if t == nil {
			continue
		}
		vs.Assert((t.Status == stub.Active) == !x.dead, "token active that is dead, or dead that is active")
		if t.Status == stub.Active {
			vs.Assert(t.Metadata != nil && vs.And(t.TokenType == x.typ, t.Metadata.Subject == x.subject, t.Metadata.ClientId == x.client, t.Metadata.Scope == x.scope, t.Metadata.Audience == x.aud), "content of a token changed")
			vs.Assert(vs.And(t.Metadata.Issuer == stub.Issuer, int64(t.Metadata.ExpiresAt) == x.till, t.GetConfirmation().GetJkt() == x.key), "lifetime or key of a token changed")
			vs.Cover("live")
		}
	}
}

// Two users' grants, used in any order.
//
//gosym:bounds 2 grants by 2 subjects, one by code and one by code or by device, to 2 clients (by device: to the same one), bound or not to one of two keys (quick: only the device's), followed by 3 steps, each a redemption of either code, a refresh, an exchange (plain, or narrowed for a resource) or a revocation of any token handed out so far, one of them (quick: the last) possibly by the other client or with another key, any time up to 8 days passing before one of the steps (quick: not the first)
//gosym:cover redeemed,replay,refreshed,rotated,exchanged,revoked,live
//gosym:weight 20
func CheckHistory() {
	w := open()
	full := vs.Thorough()
	device := vs.Choose("origin", 2)
	bound := device
	if full {
		bound = vs.Choose("bound", 2)
	}
	key := []string{"", "k1"}[bound]
	if device == 0 {
		w.authorize("c", "alice", "openid offline_access")
		w.redeem(w.codes[0], "c", key)
	} else {
		res, err := w.dev.Authorize(stub.Ctx(), &flowv1.DeviceAuthorizationRequest{Issuer: stub.Issuer, ClientId: "c", Scope: stub.Ptr("openid offline_access"), Audience: stub.Ptr("aud-c")})
		vs.Assert(err == nil && res != nil, "right device authorization refused")
		_, err = w.dev.Validate(stub.Ctx(), &flowv1.DeviceCodeValidationRequest{Issuer: stub.Issuer, UserCode: res.UserCode, Subject: "alice"})
		vs.Assert(err == nil, "right approval refused")
		out, err := w.call("c", key, stub.GrantDevice, func(in *flowv1.TokenRequest) {
			in.Grant = &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{ClientId: "c", DeviceCode: res.DeviceCode}}
		})
		vs.Assert(err == nil, "right device code refused")
		w.pair(out, tok{client: "c", subject: "alice", scope: "openid offline_access", aud: "aud-c", key: key})
	}
	// the second user's grant goes to another client, or to the same one
	if device == 0 {
		w.authorize("d", "bob", "openid")
	} else {
		w.authorize("c", "bob", "openid offline_access")
	}
	const n = 3
	odd, wait := n-vs.Choose("odd step", 2), 1+vs.Choose("wait before", 2)
	if full {
		odd, wait = vs.Choose("odd step", n+1), vs.Choose("wait before", n)
	}
	for i := 0; i < n; i++ {
		if i == wait {
			w.now += vs.Int64Range("dt", 0, 8*86400)
			vs.SetNow(w.now)
		}
		var x *tok
		var k *code
		step := vs.Choose("step", 5)
		owner, proof := "d", ""
		if step == 0 {
			k = w.codes[vs.Choose("code", len(w.codes))]
			owner = k.client
		} else {
			x = w.toks[vs.Choose("token", len(w.toks))]
			owner, proof = x.client, x.key
		}
		if i == odd {
			if step != 4 && vs.Choose("oddity", 2) == 1 {
				proof = "k2"
			} else {
				owner = map[string]string{"c": "d", "d": "c"}[owner]
			}
		}
		switch step {
		case 0:
			w.redeem(k, owner, proof)
		case 1:
			w.refresh(x, owner, proof)
		case 2, 3:
			w.exchange(x, owner, proof, step == 3)
		case 4:
			w.revoke(x, owner)
		}
	}
	w.final()
}
