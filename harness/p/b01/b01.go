// Package b01: tokens are issued only to known clients for a supported, well-formed grant.
package b01

import (
	"strings"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

func fold(l []string, x string) bool {
	r := false
	for _, v := range l {
		r = vs.Or(r, strings.EqualFold(v, x))
	}
	return r
}

var types = []string{stub.GrantCode, stub.GrantClient, stub.GrantRefresh, stub.GrantDevice, stub.GrantExchange, "", "implicit", "AUTHORIZATION_CODE"}

// Any grant type with any payload, against any registration.
//
//gosym:bounds 8 grant type strings, 6 payloads, client ids of up to 2 bytes, registration lists of two entries over the grant types, 4 issuers, client types of any value in 0..4, every dependency may fail
//gosym:cover nil,code,client,refresh,device,exchange,refused,fault
func CheckDispatch() {
	now := stub.Now("now")
	known := vs.StrRange("known", 1, 2)
	c := stub.AllGrants(known)
	c.ClientType = clientv1.ClientType(vs.IntRange("ctype", 0, 4))
	c.GrantTypes = []string{vs.Pick("g1", types...), vs.Pick("g2", types...)}
	t := stub.NewTok(true, c)
	t.Fill(known, "openid", now)
	var in *flowv1.TokenRequest
	ok := false
	typ := ""
	if vs.Bool("given") {
		in = &flowv1.TokenRequest{Issuer: vs.Pick("issuer", stub.Issuer, stub.Issuer2, "", "as")}
		typ = types[vs.Choose("type", len(types))]
		in.GrantType = typ
		k := vs.Choose("payload", 6)
		payload := ""
		if k > 0 {
			payload = stub.Grants[k-1]
		}
		stub.Grant(in, payload)
		if typ == stub.GrantExchange {
			t.Tokens.T.TokenType = stub.Access
		}
		supported := vs.Or(typ == stub.GrantCode, typ == stub.GrantClient, typ == stub.GrantRefresh, typ == stub.GrantDevice, typ == stub.GrantExchange)
		var caller *clientv1.Client
		callerOK := false
		if vs.Bool("caller") {
			caller = stub.Caller(vs.Str("caller.id", 2))
			callerOK = caller.ClientId == known
		}
		in.Client = caller
		sameIssuer := in.Issuer == stub.Issuer
		if typ == stub.GrantClient {
			sameIssuer = vs.And(in.Issuer != "", in.Issuer != "as")
			sameIssuer = vs.And(sameIssuer, vs.Or(c.ClientType == clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, c.ClientType == clientv1.ClientType_CLIENT_TYPE_CREDENTIALED))
		}
		ok = vs.And(supported, payload == typ, callerOK, sameIssuer, fold(c.GrantTypes, typ))
	} else {
		vs.Cover("nil")
	}
	res, err := t.Svc.Token(stub.Ctx(), in)
	vs.Assert(res != nil, "nil response")
	if res == nil {
		return
	}
	if err != nil {
		vs.Assert(res.Error != nil && res.Error.Err != "", "failure without an error code")
		vs.Assert(stub.NoTokens(res), "failure with a token")
		if t.L.Fault {
			vs.Cover("fault")
		} else {
			vs.Assert(!ok, "well-formed grant refused")
			vs.Cover("refused")
		}
		return
	}
	vs.Assert(ok, "tokens issued for a request that does not qualify")
	vs.Assert(res.Error == nil, "success with an error")
	vs.Assert(res.AccessToken != nil, "success without a token")
	for _, g := range stub.Grants {
		probe := stub.ProbeOf(g)
		if probe == "" {
			continue
		}
		mine := probe == stub.ProbeOf(typ)
		vs.Assert((t.L.Tried(probe) > 0) == mine, "another grant than the named one was executed")
	}
	vs.Cover(map[string]string{stub.GrantCode: "code", stub.GrantClient: "client", stub.GrantRefresh: "refresh", stub.GrantDevice: "device", stub.GrantExchange: "exchange"}[typ])
}
