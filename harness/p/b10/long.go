package b10

import (
	"strings"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Among many words, each requested one must be granted.
//
//gosym:bounds a subject token of 62 words for a subject of 601 or 5001 characters; 1 to 63 words requested, of which one is a chosen word, or the long subject token words but one chosen character
//gosym:cover issued,refused
func CheckLong() {
	now := stub.Now("now")
	sh := vs.Choose("shape", stub.Shapes)
	t := stub.NewTok(false, stub.AllGrants("c"))
	have := stub.LongScope("scope", false)
	t.Fill("c", have, now)
	x := t.Tokens.T
	x.TokenType = stub.Access
	x.Metadata.Subject, x.Metadata.Audience = stub.Long(sh, "subject"), stub.Long(sh, "audience")
	req := ""
	switch vs.Choose("request", 4) {
	case 0:
		req = stub.LongScope("request", false)
	case 1:
		req = "last:" + vs.StrIn("request", 1, 1, "aAb~")
	case 2:
		// all but the last word, and one more
		req = have[:strings.LastIndexByte(have[:100], ' ')] + " openid" + vs.StrIn("request", 0, 1, " 2")
	case 3:
		req = "scope:b" + vs.StrIn("request", 1, 1, "xy") + " openid"
	}
	vs.Assume(req != "")
	in := &flowv1.TokenRequest{Issuer: stub.Issuer, Client: stub.Caller("c"), GrantType: stub.GrantExchange, Scope: &req}
	stub.Grant(in, stub.GrantExchange)
	res, err := t.Svc.Token(stub.Ctx(), in)
	narrow := true
	granted := words(have)
	for _, w := range words(req) {
		narrow = narrow && granted.has(w)
	}
	if err != nil {
		vs.Assert(!narrow, "right exchange refused")
		vs.Assert(stub.NoTokens(res) && t.L.Tried("tokens.Create") == 0, "refused exchange gave a token")
		vs.Cover("refused")
		return
	}
	vs.Assert(narrow, "scope widened")
	m := res.GetAccessToken().GetMetadata()
	vs.Assert(m != nil && vs.And(m.Scope == req, m.Subject == x.Metadata.Subject, m.Audience == x.Metadata.Audience, m.ClientId == "c"), "token of another grant")
	vs.Cover("issued")
}
