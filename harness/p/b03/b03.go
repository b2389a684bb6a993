// Package b03: an authorization code is spent before any token exists and never works twice.
package b03

import (
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

func request(client, code, redirect, verifier string) *flowv1.TokenRequest {
	return &flowv1.TokenRequest{Issuer: stub.Issuer, Client: stub.Caller(client), GrantType: stub.GrantCode,
		Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: code, RedirectUri: redirect, CodeVerifier: verifier}}}
}

// No token is generated or stored before the session is deleted, and none without the deletion.
//
//gosym:bounds every dependency may fail or report an absence at every call; scopes over 4 values; any verifier of the right length or the right one; correct or foreign client
//gosym:cover issued,refused,undeleted,offline
func CheckOrder() {
	now := stub.Now("now")
	t := stub.NewTok(true, stub.AllGrants("c"), stub.AllGrants("d"))
	t.AT.Values = []string{vs.Str("at", 2)}
	t.RT.Values = []string{vs.Str("rt", 2)}
	t.Fill("c", vs.Pick("scope", "openid", "openid offline_access", "profile", "offline_access"), now)
	v := stub.Verifier
	if vs.Bool("othervalue") {
		v = vs.StrRange("verifier", 43, 43)
	}
	res, err := t.Svc.Token(stub.Ctx(), request(vs.Pick("client", "c", "d"), "code", vs.Pick("redirect", stub.Redir, stub.Redir2), v))
	del := t.L.Index("sessions.Delete")
	for _, op := range []string{"at.Generate", "rt.Generate", "tokens.Create"} {
		for i, e := range t.L.Ev {
			if e.Op == op {
				vs.Assert(del >= 0 && del < i, "token made before the code was deleted")
			}
		}
	}
	if err == nil {
		vs.Assert(del >= 0, "success without deleting the code")
		vs.Assert(t.L.Ev[del].Issuer == stub.Issuer && t.L.Ev[del].Key == "code", "another code deleted")
		vs.Cover("issued")
		if res.RefreshToken != nil {
			vs.Cover("offline")
		}
	} else {
		vs.Assert(res != nil, "no response")
		vs.Assert(stub.NoTokens(res), "token in a refused response")
		vs.Cover("refused")
		if t.L.Tried("sessions.Delete") > 0 && del < 0 {
			vs.Cover("undeleted")
		}
	}
	// a known client with a known code always spends it, unless the deletion fails
	if t.L.Get("sessions.Get") != nil {
		vs.Assert(t.L.Tried("sessions.Delete") == 1, "a presented code is not spent")
	}
}

type world struct {
	l   *stub.Log
	svc services.Token
	sto storage.AuthorizationCodeSession
	at  *stub.TokenGen
}

func open() *world {
	w := &world{l: &stub.Log{}}
	w.sto = inmemory.AuthorizationCodeSessions()
	cl := &stub.Clients{L: w.l, List: []*clientv1.Client{stub.AllGrants("c"), stub.AllGrants("d")}}
	w.at = &stub.TokenGen{L: w.l, Name: "at", Values: []string{"at1", "at2", "at3", "at4"}}
	w.svc = token.New(w.at, &stub.TokenGen{L: w.l, Name: "rt", Values: []string{"rt1", "rt2", "rt3", "rt4"}}, cl, &stub.Requests{L: w.l}, w.sto, inmemory.DeviceCodeSessions(), inmemory.Tokens(), inmemory.Resources())
	return w
}

func (w *world) register(code, verifier string) {
	w.sto.Register(stub.Ctx(), stub.Issuer, code, &sessionv1.AuthorizationCodeSession{Issuer: stub.Issuer, Subject: "user", Request: &flowv1.AuthorizationRequest{
		ClientId: "c", RedirectUri: stub.Redir, Scope: "openid offline_access", Audience: "aud", State: "state", Nonce: "nonce", CodeChallengeMethod: "S256", CodeChallenge: stub.Challenge(verifier)}})
}

// Presentations one after the other over the in-memory store.
//
//gosym:bounds 2 codes, 3 presentations of either code by either client with right or wrong redirect URI and verifier, 0 to 40 seconds apart
//gosym:cover first,again,spent
func CheckHistory() {
	now := stub.Now("now")
	w := open()
	w.register("k1", stub.Verifier)
	w.register("k2", stub.Verifier)
	presented := map[string]bool{}
	used := map[string]bool{}
	for i := 0; i < 3; i++ {
		code := []string{"k1", "k2"}[vs.Choose("code", 2)]
		client, redirect, verifier := "c", stub.Redir, stub.Verifier
		switch vs.Choose("how", 4) {
		case 1:
			client = "d"
		case 2:
			redirect = stub.Redir2
		case 3:
			verifier = "x123456789012345678901234567890123456789012"
		}
		_, err := w.svc.Token(stub.Ctx(), request(client, code, redirect, verifier))
		if err == nil {
			vs.Assert(!presented[code], "code redeemed after it had been presented")
			vs.Assert(!used[code], "code redeemed twice")
			used[code] = true
			vs.Cover("first")
		} else if used[code] {
			vs.Cover("again")
		} else if presented[code] {
			vs.Cover("spent")
		}
		presented[code] = true
		now += vs.Int64Range("dt", 0, 40)
		vs.SetNow(now)
	}
}

// Presentations at the same time over the in-memory store.
//
//gosym:bounds 2 threads presenting one code, scheduling points at every lock and concurrent-map operation, at most 3 preemptions
//gosym:cover one
func CheckConcurrent() {
	stub.Now("now")
	w := open()
	w.l.Off = true
	w.register("k1", stub.Verifier)
	var ok [2]bool
	for i := 0; i < 2; i++ {
		i := i
		vs.Go(func() {
			_, err := w.svc.Token(stub.Ctx(), request("c", "k1", stub.Redir, stub.Verifier))
			ok[i] = err == nil
		})
	}
	vs.Join()
	vs.Assert(!(ok[0] && ok[1]), "code redeemed twice at the same time")
	vs.Assert(ok[0] || ok[1], "code lost")
	vs.Cover("one")
}
