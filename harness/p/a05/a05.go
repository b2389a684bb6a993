// Package a05: a refused authorization request always reports an error and leaves no artefact.
package a05

import (
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

func caller(label string) *clientv1.Client {
	if vs.Bool(label) {
		return stub.Caller(vs.Str(label+".id", 2))
	}
	return nil
}

// Failed authorizations carry an error and nothing else.
//
//gosym:bounds nil and partial requests, every field symbolic (as in A01), direct or by reference, every dependency may fail
//gosym:cover nil,success,failure,state,reference
func CheckAuthorize() {
	c := stub.Client("client")
	a := stub.NewAuthz(true, c)
	var in *flowv1.AuthorizeRequest
	var eff *flowv1.AuthorizationRequest
	if vs.Bool("given") {
		in = &flowv1.AuthorizeRequest{Issuer: vs.Str("issuer", 1), Subject: vs.Str("subject", 1), Client: caller("caller")}
		switch vs.Choose("request", 3) {
		case 1:
			eff = stub.ArbitraryRequest("req")
			in.Request = eff
		case 2:
			in.Request = &flowv1.AuthorizationRequest{RequestUri: stub.Ptr("ref"), State: vs.Str("sent.state", 34)}
			a.Requests.Issuer, a.Requests.URI = vs.Str("stored.issuer", 1), "ref"
			if vs.Bool("stored") {
				a.Requests.Req = stub.ArbitraryRequest("req")
				eff = a.Requests.Req
			}
			vs.Cover("reference")
		}
	} else {
		vs.Cover("nil")
	}
	state := ""
	if eff != nil {
		state = eff.State
	}
	res, err := a.Svc.Authorize(stub.Ctx(), in)
	vs.Assert(res != nil, "nil response")
	if res == nil {
		return
	}
	if err == nil {
		vs.Assert(res.Error == nil, "success with an error")
		vs.Assert(res.Code != "" && res.State == state, "success without code and state")
		vs.Cover("success")
		return
	}
	vs.Cover("failure")
	vs.Assert(res.Error != nil, "failure without a protocol error")
	if res.Error == nil {
		return
	}
	vs.Assert(res.Error.Err != "", "failure without an error code")
	vs.Assert(res.Code == "", "failure with a code")
	vs.Assert(a.L.Count("sessions.Register") == 0, "failure leaves a code session")
	vs.Assert(a.L.Count("requests.Register") == 0, "failure leaves a pushed request")
	if res.Error.State != nil {
		vs.Assert(*res.Error.State == state, "error carries another state")
		vs.Cover("state")
	}
	if a.L.Tried("clients.Get") > 0 {
		vs.Assert(res.Error.State != nil, "error after validation lost the state")
	}
}

// Failed registrations carry an error and nothing else.
//
//gosym:bounds nil and partial requests, every field symbolic (as in A01), every dependency may fail
//gosym:cover nil,success,failure
func CheckRegister() {
	c := stub.Client("client")
	a := stub.NewAuthz(true, c)
	var in *flowv1.RegistrationRequest
	state := ""
	if vs.Bool("given") {
		in = &flowv1.RegistrationRequest{Issuer: vs.Str("issuer", 1), Client: caller("caller")}
		if vs.Bool("request") {
			in.Request = stub.ArbitraryRequest("req")
			state = in.Request.State
			if vs.Bool("nested") {
				in.Request.RequestUri = stub.Ptr(vs.Str("nested.uri", 2))
			}
		}
	} else {
		vs.Cover("nil")
	}
	res, err := a.Svc.Register(stub.Ctx(), in)
	vs.Assert(res != nil, "nil response")
	if res == nil {
		return
	}
	if err == nil {
		vs.Assert(res.Error == nil, "success with an error")
		vs.Assert(res.RequestUri != "", "success without a reference")
		vs.Cover("success")
		return
	}
	vs.Cover("failure")
	vs.Assert(res.Error != nil, "failure without a protocol error")
	if res.Error == nil {
		return
	}
	vs.Assert(res.Error.Err != "", "failure without an error code")
	vs.Assert(res.RequestUri == "", "failure with a reference")
	vs.Assert(a.L.Count("requests.Register") == 0, "failure leaves a pushed request")
	vs.Assert(a.L.Count("sessions.Register") == 0, "failure leaves a code session")
	if res.Error.State != nil {
		vs.Assert(*res.Error.State == state, "error carries another state")
	}
}
