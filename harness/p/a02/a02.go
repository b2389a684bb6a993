// Package a02: authorization responses and stored sessions match the request they grant.
package a02

import (
	"strings"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// The stored session and the response repeat the request, directly or by reference.
//
//gosym:bounds acceptable requests with symbolic state, nonce, challenge, audience, mode, type, redirect, prompt; issuer, subject, client, code of up to 4 bytes
//gosym:cover direct,reference,mode,nomode
func CheckSession() {
	cid := vs.StrRange("cid", 1, 3)
	a := stub.NewAuthz(false, stub.GoodClient(cid))
	r := stub.GoodRequest("req", cid)
	want := vs.Snapshot(r).(*flowv1.AuthorizationRequest)
	mode := stub.EffectiveMode(want)
	issuer, subject := vs.StrRange("issuer", 1, 3), vs.StrRange("subject", 1, 3)
	in := &flowv1.AuthorizeRequest{Issuer: issuer, Subject: subject, Request: r}
	if vs.Bool("reference") {
		a.Requests.Issuer, a.Requests.URI, a.Requests.Req = issuer, "ref", r
		in.Request = &flowv1.AuthorizationRequest{RequestUri: stub.Ptr("ref"), State: vs.Str("other.state", 34), ClientId: cid, RedirectUri: stub.Redir, Scope: "admin"}
		vs.Cover("reference")
	} else {
		vs.Cover("direct")
	}
	res, err := a.Svc.Authorize(stub.Ctx(), in)
	vs.Assert(err == nil, "acceptable request refused")
	if err != nil {
		return
	}
	ev := a.L.Get("sessions.Register")
	vs.Assert(ev != nil && a.L.Count("sessions.Register") == 1, "not exactly one session registered")
	s := ev.Val.(*sessionv1.AuthorizationCodeSession)
	vs.Assert(ev.Issuer == issuer, "session registered under another issuer")
	vs.Assert(ev.Key == a.Code.Value, "session registered under another code than the generated one")
	vs.Assert(res.Code == ev.Key, "returned code is not the registered one")
	vs.Assert(s.Issuer == issuer, "session names another issuer")
	vs.Assert(s.Subject == subject, "session names another subject")
	vs.Assert(s.Request != nil && stub.SameRequest(s.Request, want), "session request differs from the granted request")
	vs.Assert(stub.Deref(s.Request.ResponseMode) == mode, "session has another response mode")
	vs.Assert(s.Request.Scope == want.Scope, "session has another scope")
	vs.Assert(res.Error == nil, "error on success")
	vs.Assert(res.State == want.State, "response has another state")
	vs.Assert(res.RedirectUri == want.RedirectUri, "response has another redirect URI")
	vs.Assert(res.ClientId == cid, "response names another client")
	vs.Assert(res.Issuer == issuer, "response names another issuer")
	vs.Assert(res.ResponseMode == mode, "response has another response mode")
	vs.Assert(res.ExpiresIn == a.Sessions.TTL, "response has another lifetime than storage gave")
	if mode == "" {
		vs.Cover("nomode")
	} else {
		vs.Cover("mode")
	}
}

func fold(l []string, x string) bool {
	for _, v := range l {
		if strings.EqualFold(v, x) {
			return true
		}
	}
	return false
}

// Cleaning keeps every scope but unconsented offline access, and adds none.
//
//gosym:bounds scope lists of up to 4 words over openid, offline_access, OFFLINE_ACCESS, email, OpenID, offline_access2 (up to 5 words in the thorough tier), separated by one or two blanks; prompt absent, consent or any word of up to 7 bytes
//gosym:cover offline,stripped,noopenid
func CheckScope() {
	cid := "c"
	a := stub.NewAuthz(false, stub.GoodClient(cid))
	r := stub.GoodRequest("req", cid)
	r.ResponseMode = nil
	n := 4
	if vs.Thorough() {
		n = 5
	}
	words := stub.Words("scope", n, "openid", "offline_access", "OFFLINE_ACCESS", "email", "OpenID", "offline_access2")
	vs.Assume(len(words) > 0)
	sep := []string{" ", "  "}[vs.Choose("sep", 2)]
	r.Scope = strings.Join(words, sep)
	r.Prompt = stub.Opt("prompt", vs.StrIn("prompt", 0, 7, "consetlogi "))
	consent := r.Prompt != nil && *r.Prompt == "consent"
	_, err := a.Svc.Authorize(stub.Ctx(), &flowv1.AuthorizeRequest{Issuer: "i", Subject: "s", Request: r})
	vs.Assert(err == nil, "acceptable request refused")
	if err != nil {
		return
	}
	got := strings.Fields(a.L.Get("sessions.Register").Val.(*sessionv1.AuthorizationCodeSession).Request.Scope)
	openid := fold(words, "openid")
	want := []string{}
	for _, w := range words {
		if openid && !consent && strings.EqualFold(w, "offline_access") {
			vs.Cover("stripped")
			continue
		}
		want = append(want, w)
	}
	vs.Assert(len(got) == len(want), "number of granted scopes is wrong")
	for i := range got {
		vs.Assert(got[i] == want[i], "granted scope differs from the requested one")
	}
	if openid && fold(got, "offline_access") {
		vs.Assert(consent, "offline access granted without consent")
		vs.Cover("offline")
	}
	if !openid {
		vs.Cover("noopenid")
	}
}
