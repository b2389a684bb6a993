// Package a04: pushed authorization requests are registered only for their own client.
package a04

import (
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// A reference is handed out exactly for an acceptable, direct request of the caller.
//
//gosym:bounds every request field symbolic (as in A01), any caller id of up to 2 bytes or none, client with 2 entries per registration list, every dependency may fail
//gosym:cover registered,refused,fault
func CheckRegister() {
	c := stub.Client("client")
	a := stub.NewAuthz(true, c)
	r := stub.ArbitraryRequest("req")
	var ref *string
	if vs.Bool("nested") {
		ref = stub.Ptr(vs.Str("nested.uri", 2))
	}
	r.RequestUri = ref
	var caller *clientv1.Client
	callerOK := false
	if vs.Bool("caller") {
		caller = stub.Caller(vs.Str("caller.id", 2))
		callerOK = caller.ClientId == r.ClientId
	}
	issuer := vs.Str("issuer", 2)
	ok := vs.And(stub.Acceptable(r, c), issuer != "", caller != nil, callerOK, ref == nil)
	want := vs.Snapshot(r).(*flowv1.AuthorizationRequest)
	res, err := a.Svc.Register(stub.Ctx(), &flowv1.RegistrationRequest{Issuer: issuer, Client: caller, Request: r})
	ev := a.L.Get("requests.Register")
	if err != nil {
		vs.Assert(ev == nil, "refused request was stored")
		vs.Assert(res != nil && res.RequestUri == "" && res.Error != nil && res.Error.Err != "", "refused request without a plain error")
		if a.L.Fault {
			vs.Cover("fault")
		} else {
			vs.Assert(!ok, "acceptable request refused")
			vs.Cover("refused")
		}
		return
	}
	vs.Assert(ok, "request stored that does not qualify")
	vs.Assert(ev != nil && a.L.Count("requests.Register") == 1, "not exactly one request stored")
	if ev == nil {
		return
	}
	vs.Assert(ev.Issuer == issuer, "request stored under another issuer")
	vs.Assert(ev.Key == a.URI.Value, "request stored under another reference than the generated one")
	vs.Assert(res.RequestUri == ev.Key, "returned reference is not the stored one")
	vs.Assert(res.ExpiresIn == a.Requests.TTL, "returned lifetime is not the one storage gave")
	vs.Assert(res.Issuer == issuer, "response names another issuer")
	vs.Assert(res.Error == nil, "error on success")
	s := ev.Val.(*flowv1.AuthorizationRequest)
	vs.Assert(stub.SameRequest(s, want), "stored request differs from the pushed one")
	vs.Cover("registered")
}
