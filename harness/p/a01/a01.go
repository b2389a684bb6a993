// Package a01: authorization codes are issued only for fully valid requests.
package a01

import (
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// A code exists if and only if the request and the client registration allow it.
//
//gosym:bounds every request field symbolic (state to 34 bytes, nonce to 9, challenge to 45, response type to 6, client ids to 2; redirect URI, mode, scope from vocabularies), client with 2 entries per registration list, every dependency may fail
//gosym:cover issued,refused,fault
func CheckIssue() {
	c := stub.Client("client")
	a := stub.NewAuthz(true, c)
	r := stub.ArbitraryRequest("req")
	issuer, subject := vs.Str("issuer", 2), vs.Str("subject", 2)
	ok := vs.And(stub.Acceptable(r, c), issuer != "", subject != "")
	res, err := a.Svc.Authorize(stub.Ctx(), &flowv1.AuthorizeRequest{Issuer: issuer, Subject: subject, Request: r})
	if err == nil {
		vs.Assert(ok, "code issued for a request that does not qualify")
		vs.Assert(res != nil && res.Code != "", "success without a code")
		vs.Cover("issued")
		return
	}
	if a.L.Fault {
		vs.Cover("fault")
	} else {
		vs.Assert(!ok, "qualified request refused with a working backend")
		vs.Cover("refused")
	}
	vs.Assert(a.L.Count("sessions.Register") == 0, "refused request has a registered code")
}
