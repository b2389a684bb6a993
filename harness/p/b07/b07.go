// Package b07: refreshing keeps the key binding and rotates near-expired refresh tokens.
package b07

import (
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// The key of the presented token decides.
//
//gosym:bounds stored and presented key confirmations absent, empty or of up to 2 arbitrary bytes, refresh tokens with 0 to 8 days left, every dependency may fail
//gosym:cover bound,unbound,foreign,rotated,kept,unrevoked
func CheckBinding() {
	now := stub.Now("now")
	t := stub.NewTok(true, stub.AllGrants("c"))
	t.Fill("c", "openid", now)
	x := t.Tokens.T
	x.TokenId = vs.StrRange("tid", 1, 2)
	x.Metadata.ExpiresAt = uint64(now + vs.Int64Range("left", 0, 8*86400))
	x.Confirmation = stub.Confirm("stored")
	before := vs.Snapshot(x).(*tokenv1.Token)
	in := &flowv1.TokenRequest{Issuer: stub.Issuer, Client: stub.Caller("c"), GrantType: stub.GrantRefresh, TokenConfirmation: stub.Confirm("presented")}
	stub.Grant(in, stub.GrantRefresh)
	key, proved := before.GetConfirmation().GetJkt(), in.GetTokenConfirmation().GetJkt()
	res, err := t.Svc.Token(stub.Ctx(), in)
	rev := t.L.Index("tokens.Revoke")
	vs.Assert(vs.Same(x, before), "the presented token itself was changed")
	vs.Assert(t.L.Count("tokens.Delete") == 0, "the presented token was deleted")
	if err != nil {
		if !t.L.Fault {
			vs.Assert(vs.And(key != "", key != proved), "refresh with the right key refused")
			vs.Cover("foreign")
		} else if t.L.Tried("tokens.Revoke") > 0 {
			vs.Assert(rev < 0 || t.L.Tried("tokens.Create") == 2, "revoked without replacement")
			vs.Cover("unrevoked")
		}
		return
	}
	vs.Assert(vs.Or(key == "", key == proved), "refresh with another key accepted")
	want := key
	if key == "" {
		want = proved
		vs.Cover("unbound")
	} else {
		vs.Cover("bound")
	}
	vs.Assert(res.AccessToken.GetConfirmation().GetJkt() == want, "access token not bound to the key of the refresh token")
	st, _ := t.Stored(res.AccessToken.Value)
	vs.Assert(st != nil && st.GetConfirmation().GetJkt() == want, "stored access token not bound to the key of the refresh token")
	if res.RefreshToken != nil {
		vs.Assert(res.RefreshToken.GetConfirmation().GetJkt() == want, "replacement not bound to the key of the refresh token")
		vs.Assert(rev >= 0, "replaced refresh token not revoked")
		if rev >= 0 {
			vs.Assert(t.L.Ev[rev].Issuer == stub.Issuer && t.L.Ev[rev].Key == before.TokenId, "another token revoked")
		}
		vs.Assert(t.L.Tried("tokens.Revoke") == 1, "more than one token revoked")
		vs.Cover("rotated")
	} else {
		vs.Assert(t.L.Tried("tokens.Revoke") == 0, "presented token revoked without a replacement")
		vs.Cover("kept")
	}
}

// Chains of refreshes over the in-memory token store.
//
//gosym:bounds 3 refreshes of any refresh token obtained so far, 0 to 8 days apart, with one of two keys, starting from a bound or unbound refresh token with 0 to 7 days left
//gosym:cover refreshed,rotated,old,otherkey,expired
func CheckChain() {
	now := stub.Now("now")
	l := &stub.Log{}
	tokens := inmemory.Tokens()
	svc := token.New(&stub.TokenGen{L: l, Name: "at", Values: []string{"at1", "at2", "at3"}}, &stub.TokenGen{L: l, Name: "rt", Values: []string{"rt1", "rt2", "rt3"}},
		&stub.Clients{L: l, List: []*clientv1.Client{stub.AllGrants("c")}}, &stub.Requests{L: l}, &stub.Sessions{L: l}, &stub.Devices{L: l}, tokens, &stub.Resources{L: l})
	key := vs.Pick("key", "", "k1")
	type rt struct {
		value string
		exp   int64
		key   string
		dead  bool
	}
	first := &rt{value: "rt0", exp: now + vs.Int64Range("left", 0, 7*86400), key: key}
	x := &tokenv1.Token{TokenType: stub.Refresh, TokenId: "tid", Status: stub.Active, Value: "rt0",
		Metadata: &tokenv1.TokenMeta{Issuer: stub.Issuer, Subject: "user", ClientId: "c", ExpiresAt: uint64(first.exp), Scope: "openid", Audience: "aud"}}
	if key != "" {
		x.Confirmation = &tokenv1.TokenConfirmation{Jkt: key}
	}
	tokens.Create(stub.Ctx(), stub.Issuer, x)
	all := []*rt{first}
	// token identifiers are drawn at random: no two are equal
	ids := []string{"tid"}
	fresh := func(x *tokenv1.Token) {
		for _, o := range ids {
			vs.Assume(o != x.TokenId)
		}
		ids = append(ids, x.TokenId)
	}
	for i := 0; i < 3; i++ {
		r := all[vs.Choose("which", len(all))]
		proof := vs.Pick("proof", "k1", "k2")
		in := &flowv1.TokenRequest{Issuer: stub.Issuer, Client: stub.Caller("c"), GrantType: stub.GrantRefresh, TokenConfirmation: &tokenv1.TokenConfirmation{Jkt: proof},
			Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: r.value}}}
		res, err := svc.Token(stub.Ctx(), in)
		if err == nil {
			vs.Assert(!r.dead, "replaced refresh token still works")
			vs.Assert(now <= r.exp, "expired refresh token works")
			vs.Assert(vs.Or(r.key == "", r.key == proof), "refresh token works with another key")
			vs.Cover("refreshed")
			fresh(res.AccessToken)
			if n := res.RefreshToken; n != nil {
				fresh(n)
				r.dead = true
				all = append(all, &rt{value: n.Value, exp: int64(n.Metadata.ExpiresAt), key: proof})
				vs.Cover("rotated")
			}
		} else {
			vs.Assert(vs.Or(r.dead, now > r.exp, vs.And(r.key != "", r.key != proof)), "live refresh token refused")
			switch {
			case r.dead:
				vs.Cover("old")
			case now > r.exp:
				vs.Cover("expired")
			default:
				vs.Cover("otherkey")
			}
		}
		now += vs.Int64Range("dt", 0, 8*86400)
		vs.SetNow(now)
	}
}
