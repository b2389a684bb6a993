// Package b09: client-credentials tokens belong to the client itself.
package b09

import (
	"strings"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// The grant yields one access token of the client.
//
//gosym:bounds every client type in 0..5, client ids, scopes, audiences of up to 2 arbitrary bytes or absent, two grant type entries over 3 values each, foreign client fields in the request, every dependency may fail
//gosym:cover issued,refused,type,grant,fault
func CheckOwn() {
	stub.Now("now")
	cid := vs.StrRange("cid", 1, 2)
	c := stub.AllGrants(cid)
	c.ClientType = clientv1.ClientType(vs.IntRange("type", 0, 5))
	c.GrantTypes = []string{vs.Pick("g1", stub.GrantClient, stub.GrantCode, "Client_Credentials"), vs.Pick("g2", stub.GrantRefresh, stub.GrantClient, "client")}
	t := stub.NewTok(true, c)
	t.Fill(cid, "openid offline_access", 1500000000)
	in := &flowv1.TokenRequest{Issuer: vs.Pick("issuer", stub.Issuer, stub.Issuer2, "as"), GrantType: stub.GrantClient,
		// what the caller says about itself beyond its identifier does not count
		Client:            &clientv1.Client{ClientId: cid, ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, GrantTypes: stub.Grants, ClientName: "root"},
		Scope:             stub.Opt("scope", scope()),
		Audience:          stub.Opt("audience", vs.Str("audience", 2)),
		TokenConfirmation: stub.Confirm("cnf"),
	}
	stub.Grant(in, stub.GrantClient)
	typ := vs.Or(c.ClientType == clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, c.ClientType == clientv1.ClientType_CLIENT_TYPE_CREDENTIALED)
	reg := vs.Or(strings.EqualFold(c.GrantTypes[0], stub.GrantClient), strings.EqualFold(c.GrantTypes[1], stub.GrantClient))
	res, err := t.Svc.Token(stub.Ctx(), in)
	if err != nil {
		vs.Assert(res != nil && stub.NoTokens(res) && res.Error != nil, "refused request without error or with a token")
		if t.L.Fault {
			vs.Cover("fault")
			return
		}
		vs.Assert(!vs.And(typ, reg, in.Issuer != "as"), "valid request refused")
		switch {
		case !typ:
			vs.Cover("type")
		case !reg:
			vs.Cover("grant")
		}
		vs.Cover("refused")
		return
	}
	vs.Cover("issued")
	vs.Assert(typ, "public client got a client token")
	vs.Assert(reg, "client not registered for the grant")
	vs.Assert(res.RefreshToken == nil && t.L.Tried("rt.Generate") == 0, "refresh token without a user")
	vs.Assert(res.IdToken == nil, "identity token without a user")
	a := res.AccessToken
	vs.Assert(a != nil && a.Metadata != nil, "no access token")
	if a == nil || a.Metadata == nil {
		return
	}
	vs.Assert(a.Metadata.ClientId == cid, "token of another client")
	vs.Assert(vs.Or(a.Metadata.Subject == "", a.Metadata.Subject == cid), "subject chosen by the caller")
	vs.Assert(a.Metadata.Scope == stub.Deref(in.Scope), "another scope")
	vs.Assert(a.Metadata.Audience == stub.Deref(in.Audience), "another audience")
	vs.Assert(a.Metadata.Issuer == in.Issuer, "another issuer")
	vs.Assert(a.GetConfirmation().GetJkt() == in.GetTokenConfirmation().GetJkt(), "another key")
}

// scope returns a short scope or one which names scopes the server knows.
func scope() string {
	if vs.Choose("known scope", 2) == 0 {
		return vs.Str("scope", 2)
	}
	return vs.Pick("scopes", "offline_access", "read offline_access", "openid offline_access", "openid", "openid profile email", "offline_access\topenid", " offline_access ")
}
