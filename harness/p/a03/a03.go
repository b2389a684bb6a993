// Package a03: a pushed request reference is used once, by its client, at its issuer.
package a03

import (
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// A reference yields a code only for its own request, after the reference was deleted.
//
//gosym:bounds stored and presented issuers, references, client ids of up to 2 bytes; stored and sent request fields symbolic; every store call may fail or report an absence
//gosym:cover issued,malformed,unknown,undeleted,foreign
func CheckReference() {
	c1, c2 := vs.StrRange("c1", 1, 2), vs.StrRange("c2", 1, 2)
	a := stub.NewAuthz(true, stub.GoodClient(c1), stub.GoodClient(c2))
	stored := stub.GoodRequest("stored", c1)
	want := vs.Snapshot(stored).(*flowv1.AuthorizationRequest)
	a.Requests.Issuer, a.Requests.URI, a.Requests.Req = vs.StrRange("stored.iss", 1, 2), vs.StrRange("stored.uri", 1, 2), stored
	a.URI.Bad = vs.StrRange("bad", 1, 2)
	issuer, uri := vs.StrRange("issuer", 1, 2), vs.StrRange("presented.uri", 1, 2)
	sent := stub.GoodRequest("sent", vs.StrRange("sent.cid", 1, 2))
	sent.RequestUri = &uri
	var caller *clientv1.Client
	if vs.Bool("caller") {
		caller = stub.Caller(c2)
	}
	ok := vs.And(issuer == a.Requests.Issuer, uri == a.Requests.URI, uri != a.URI.Bad, vs.Or(caller == nil, c1 == c2))
	_, err := a.Svc.Authorize(stub.Ctx(), &flowv1.AuthorizeRequest{Issuer: issuer, Subject: "s", Client: caller, Request: sent})
	reg := a.L.Index("sessions.Register")
	if reg < 0 {
		vs.Assert(err != nil, "success without a registered code")
		if !a.L.Fault {
			vs.Assert(!ok, "valid reference refused")
		}
		switch {
		case a.L.Tried("requests.Get") == 0:
			vs.Cover("malformed")
		case a.L.Count("requests.Get") == 0:
			vs.Cover("unknown")
		case a.L.Count("requests.Delete") == 0:
			vs.Cover("undeleted")
		case caller != nil:
			vs.Cover("foreign")
		}
		return
	}
	vs.Cover("issued")
	vs.Assert(uri != a.URI.Bad, "malformed reference honoured")
	vs.Assert(issuer == a.Requests.Issuer, "reference honoured at another issuer")
	vs.Assert(uri == a.Requests.URI, "unknown reference honoured")
	vs.Assert(caller == nil || c2 == c1, "reference honoured for another client")
	del := a.L.Index("requests.Delete")
	vs.Assert(del >= 0, "code issued from a reference that was not deleted")
	if del < 0 {
		return
	}
	vs.Assert(del < reg, "reference deleted after the code was issued")
	vs.Assert(a.L.Ev[del].Issuer == issuer && a.L.Ev[del].Key == uri, "another reference was deleted")
	s := a.L.Ev[reg].Val.(*sessionv1.AuthorizationCodeSession)
	vs.Assert(s.Request != nil && stub.SameRequest(s.Request, want), "parameters sent with the reference were used")
	vs.Assert(stub.Deref(s.Request.ResponseMode) == stub.EffectiveMode(want), "response mode sent with the reference was used")
}

func open() (*stub.Log, services.Authorization) {
	l := &stub.Log{}
	cl := &stub.Clients{L: l, List: []*clientv1.Client{stub.GoodClient("c"), stub.GoodClient("d")}}
	return l, authorization.New(cl, inmemory.AuthorizationRequests(), inmemory.AuthorizationCodeSessions(), generator.DefaultAuthorizationCode(), generator.DefaultRequestURI())
}

func push(svc services.Authorization, issuer, client, state string) (string, int64) {
	r := stub.PlainRequest(client)
	r.State = state
	res, err := svc.Register(stub.Ctx(), &flowv1.RegistrationRequest{Issuer: issuer, Client: stub.Caller(client), Request: r})
	vs.Assert(err == nil && res.GetRequestUri() != "", "right request not registered")
	return res.GetRequestUri(), int64(res.GetExpiresIn())
}

func use(svc services.Authorization, issuer, client, uri string) (*flowv1.AuthorizeResponse, error) {
	r := stub.PlainRequest(client)
	r.RequestUri = &uri
	return svc.Authorize(stub.Ctx(), &flowv1.AuthorizeRequest{Issuer: issuer, Subject: "s", Client: stub.Caller(client), Request: r})
}

var states = []string{"oESIiuoybVxAJ5fAKmxxM6s2CnVic6zU", "aESIiuoybVxAJ5fAKmxxM6s2CnVic6zU"}

// References used one after the other over the in-memory store.
//
//gosym:bounds 2 requests pushed by 2 clients with any distinct generated references, 3 uses of either reference by either client at either of 2 issuers, 0 to 40 seconds apart
//gosym:cover used,again,foreign,late
func CheckHistory() {
	now := stub.Now("now")
	start := now
	_, svc := open()
	clients := []string{"c", "d"}
	u1, life := push(svc, stub.Issuer, "c", states[0])
	u2, _ := push(svc, stub.Issuer, "d", states[1])
	uris := []string{u1, u2}
	vs.Assert(life > 0, "no lifetime")
	vs.Assume(uris[0] != uris[1])
	var used, seen [2]bool
	for i := 0; i < 3; i++ {
		k, c := vs.Choose("reference", 2), vs.Choose("client", 2)
		iss := []string{stub.Issuer, stub.Issuer2}[vs.Choose("issuer", 2)]
		res, err := use(svc, iss, clients[c], uris[k])
		if err == nil {
			vs.Assert(!used[k], "reference used twice")
			vs.Assert(c == k, "reference honoured for another client")
			vs.Assert(iss == stub.Issuer, "reference honoured at another issuer")
			vs.Assert(now <= start+life, "expired reference honoured")
			vs.Assert(res.State == states[k] && res.ClientId == clients[k] && res.Code != "", "another request than the pushed one")
			used[k] = true
			vs.Cover("used")
		} else if iss == stub.Issuer {
			if used[k] {
				vs.Cover("again")
			} else if c != k {
				vs.Cover("foreign")
			} else if !seen[k] {
				vs.Assert(now >= start+life, "valid reference refused")
				vs.Cover("late")
			}
		}
		if iss == stub.Issuer {
			seen[k] = true
		}
		now += vs.Int64Range("dt", 0, 40)
		vs.SetNow(now)
	}
}

// One reference used twice at the same time over the in-memory store.
//
//gosym:bounds 2 threads using one reference, scheduling points at every lock, at most 3 preemptions
//gosym:cover one
func CheckConcurrent() {
	stub.Now("now")
	l, svc := open()
	l.Off = true
	uri, _ := push(svc, stub.Issuer, "c", states[0])
	var ok [2]bool
	for i := 0; i < 2; i++ {
		i := i
		vs.Go(func() {
			_, err := use(svc, stub.Issuer, "c", uri)
			ok[i] = err == nil
		})
	}
	vs.Join()
	vs.Assert(!(ok[0] && ok[1]), "reference used twice at the same time")
	vs.Assert(ok[0] || ok[1], "reference lost")
	vs.Cover("one")
}
