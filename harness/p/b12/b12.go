// Package b12: revocation is effective, idempotent and limited to the token's owner.
package b12

import (
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// A revocation marks exactly the owner's own token.
//
//gosym:bounds any status in 0..6, issuers over 4 values, client ids, owners, token identifiers and values of up to 2 arbitrary bytes, client and metadata absent, hint absent or over 3 values, every dependency may fail
//gosym:cover revoked,refused,foreign,unknown,fault
func CheckRevoke() {
	now := stub.Now("now")
	cid := vs.StrRange("cid", 1, 2)
	t := stub.NewTok(true, stub.AllGrants(cid))
	t.Fill("o", "openid", now)
	x := t.Tokens.T
	t.Tokens.Issuer, t.Tokens.Value = vs.Pick("store.issuer", stub.Issuer, stub.Issuer2), vs.StrRange("store.value", 1, 2)
	x.Status = tokenv1.TokenStatus(vs.IntRange("status", 0, 6))
	x.TokenType = tokenv1.TokenType(vs.IntRange("type", 0, 6))
	x.TokenId = vs.StrRange("tid", 1, 2)
	x.Metadata.ClientId = vs.Str("owner", 2)
	owner := x.Metadata.ClientId
	in := &tokenv1.RevokeRequest{Issuer: vs.Pick("issuer", stub.Issuer, stub.Issuer2, "as", ""), Token: vs.Str("value", 2), TokenTypeHint: stub.Opt("hint", vs.Pick("hint", "access_token", "refresh_token", "other"))}
	if vs.Bool("client") {
		in.Client = stub.Caller(vs.Str("caller", 2))
	}
	var req *tokenv1.RevokeRequest
	if vs.Bool("given") {
		req = in
	}
	res, err := t.Svc.Revoke(stub.Ctx(), req)
	vs.Assert(res != nil, "no response")
	vs.Assert(t.L.Tried("tokens.Create") == 0 && t.L.Tried("tokens.Delete") == 0, "revocation created or deleted a token")
	asked := vs.And(req != nil, vs.Or(in.Issuer == stub.Issuer, in.Issuer == stub.Issuer2), in.Client != nil, in.GetClient().GetClientId() == cid, in.Token != "")
	known := vs.And(in.Issuer == t.Tokens.Issuer, in.Token == t.Tokens.Value)
	if err != nil {
		vs.Assert(t.L.Count("tokens.Revoke") == 0, "token revoked by a refused request")
		if t.L.Fault {
			vs.Cover("fault")
			return
		}
		vs.Assert(t.L.Tried("tokens.Revoke") == 0, "refused revocation touched a token")
		vs.Assert(!vs.And(asked, known, owner == cid), "own token not revoked")
		vs.Cover("refused")
		if vs.And(asked, known) {
			vs.Cover("foreign")
			vs.Assert(res.Error != nil && res.Error.Err != "", "refused without an error code")
		} else if asked {
			vs.Cover("unknown")
		} else {
			vs.Assert(res.Error != nil && res.Error.Err != "", "refused without an error code")
		}
		return
	}
	vs.Assert(asked, "revocation for a stranger or without a token")
	vs.Assert(res.Error == nil, "success with an error")
	if known {
		vs.Assert(owner == cid, "token of another client revoked")
		e := t.L.Get("tokens.Revoke")
		vs.Assert(e != nil, "success without revocation")
		if e != nil {
			vs.Assert(vs.And(e.Issuer == t.Tokens.Issuer, e.Key == x.TokenId), "another token revoked")
		}
		vs.Assert(t.L.Tried("tokens.Revoke") == 1, "more than one token revoked")
		vs.Cover("revoked")
	} else {
		vs.Assert(t.L.Tried("tokens.Revoke") == 0, "unknown token revoked")
	}
}

// Histories over the in-memory token store.
//
//gosym:bounds 2 tokens of 2 clients at 2 issuers with values and identifiers of up to 1 byte, distinct at one issuer, 3 revocations by either client of any value at either issuer; afterwards both tokens are introspected, refreshed or exchanged
//gosym:cover revoked,kept,again
func CheckHistory() {
	now := stub.Now("now")
	l := &stub.Log{}
	sto := inmemory.Tokens()
	cl := &stub.Clients{L: l, List: []*clientv1.Client{stub.AllGrants("c"), stub.AllGrants("d")}}
	svc := token.New(&stub.TokenGen{L: l, Name: "at", Values: []string{"at1"}}, &stub.TokenGen{L: l, Name: "rt", Values: []string{"rt1"}}, cl, &stub.Requests{L: l}, inmemory.AuthorizationCodeSessions(), inmemory.DeviceCodeSessions(), sto, inmemory.Resources())
	type tk struct{ iss, val, id, owner string }
	one := tk{stub.Issuer, vs.StrRange("val1", 1, 1), vs.StrRange("id1", 1, 1), "c"}
	two := tk{vs.Pick("iss2", stub.Issuer, stub.Issuer2), vs.StrRange("val2", 1, 1), vs.StrRange("id2", 1, 1), vs.Pick("owner2", "c", "d")}
	vs.Assume(vs.Or(one.iss != two.iss, vs.And(one.val != two.val, one.id != two.id)))
	toks := []tk{one, two}
	for _, k := range toks {
		err := sto.Create(stub.Ctx(), k.iss, &tokenv1.Token{Issuer: k.iss, TokenType: stub.Access, TokenId: k.id, Value: k.val, Status: stub.Active,
			Metadata: &tokenv1.TokenMeta{Issuer: k.iss, ClientId: k.owner, Subject: "user", IssuedAt: uint64(now), NotBefore: uint64(now), ExpiresAt: uint64(now) + 3600}})
		vs.Assert(err == nil, "token not stored")
	}
	var dead [2]bool
	for i := 0; i < 3; i++ {
		who := vs.Pick("caller", "c", "d")
		iss := vs.Pick("at", stub.Issuer, stub.Issuer2)
		val := vs.StrRange("value", 1, 1)
		_, err := svc.Revoke(stub.Ctx(), &tokenv1.RevokeRequest{Issuer: iss, Client: stub.Caller(who), Token: val})
		for j, k := range toks {
			hit := vs.And(k.iss == iss, k.val == val, k.owner == who)
			if hit {
				vs.Assert(err == nil, "own token not revoked")
				if dead[j] {
					vs.Cover("again")
				}
				dead[j] = true
			}
		}
	}
	for j, k := range toks {
		res, err := svc.Introspect(stub.Ctx(), &tokenv1.IntrospectRequest{Issuer: k.iss, Client: stub.Caller("d"), Token: k.val})
		vs.Assert(err == nil && res.Token != nil, "token lost")
		if res.Token == nil {
			continue
		}
		vs.Assert((res.Token.Status == stub.Active) == !dead[j], "revocation without effect, or of another token")
		if dead[j] {
			vs.Cover("revoked")
		} else {
			vs.Cover("kept")
		}
	}
}
