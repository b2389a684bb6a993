package a01

import (
	"strconv"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Every entry of a long registration counts, and only its entries do.
//
//gosym:bounds registrations of 40 redirect URIs, grants, response types and modes (constant but one, of which the solver chooses a character), the right one first, in the middle, last or missing; redirect URIs of 600 to 5020 characters; clients alike but one character among 20
//gosym:cover issued,refused,unknown
func CheckMany() {
	sh := vs.Choose("shape", stub.Shapes)
	cid := stub.Long(sh, "client")
	at := []int{0, 20, 39}[vs.Choose("position", 3)]
	list := func(prefix, right string) []string {
		l := make([]string, 40)
		for i := range l {
			l[i] = prefix + strconv.Itoa(i)
		}
		l[at] = right
		return l
	}
	r := stub.PlainRequest(stub.LongAs(sh, "client", "asking"))
	r.RedirectUri = "https://app.example/" + stub.Long(sh, "redirect")
	reg := "https://app.example/" + stub.LongAs(sh, "redirect", "registered")
	// one thing may be missing
	missing := vs.Choose("missing", 4)
	c := &clientv1.Client{ClientId: cid, GrantTypes: list("grant", "authorization_code"), ResponseTypes: list("type", "code"), ResponseModes: list("mode", "query"), RedirectUris: list("https://app.example/", reg)}
	switch missing {
	case 1:
		c.GrantTypes[at] = "authorization_code" + vs.StrIn("grant", 0, 1, " 2")
	case 2:
		c.ResponseTypes[at] = "code" + vs.StrIn("type", 0, 1, " 2")
	case 3:
		c.ResponseModes[at] = "query" + vs.StrIn("mode", 0, 1, ".j")
	}
	whole := vs.And(c.GrantTypes[at] == "authorization_code", c.ResponseTypes[at] == "code", c.ResponseModes[at] == "query")
	var all []*clientv1.Client
	for i := 0; i < 20; i++ {
		all = append(all, stub.GoodClient("other"+strconv.Itoa(i)))
	}
	a := stub.NewAuthz(false, c)
	a.Clients.List = append(all, c)
	want, id := r.RedirectUri, r.ClientId
	_, err := a.Svc.Authorize(stub.Ctx(), &flowv1.AuthorizeRequest{Issuer: stub.Issuer, Subject: "user", Request: r})
	vs.Assert((err == nil) == vs.And(id == cid, reg == want, whole), "code for a request that does not qualify, or right request refused")
	switch {
	case err == nil:
		vs.Cover("issued")
	case id != cid:
		vs.Cover("unknown")
	default:
		vs.Cover("refused")
	}
}
