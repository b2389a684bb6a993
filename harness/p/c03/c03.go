// Package c03: the device flow works end to end and each approval yields tokens once.
package c03

import (
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/device"
	"zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

type world struct {
	l   *stub.Log
	dev services.Device
	tok services.Token
}

func open() *world {
	w := &world{l: &stub.Log{}}
	cl := &stub.Clients{L: w.l, List: []*clientv1.Client{stub.AllGrants("c"), stub.AllGrants("d")}}
	sto := inmemory.DeviceCodeSessions()
	w.dev = device.New(cl, sto, generator.DefaultDeviceCode(), generator.DefaultDeviceUserCode())
	w.tok = token.New(&stub.TokenGen{L: w.l, Name: "at", Values: []string{"at1", "at2", "at3", "at4"}}, &stub.TokenGen{L: w.l, Name: "rt", Values: []string{"rt1", "rt2", "rt3", "rt4"}}, cl, &stub.Requests{L: w.l}, inmemory.AuthorizationCodeSessions(), sto, inmemory.Tokens(), inmemory.Resources())
	return w
}

func (w *world) authorize(client string) *flowv1.DeviceAuthorizationResponse {
	res, err := w.dev.Authorize(stub.Ctx(), &flowv1.DeviceAuthorizationRequest{Issuer: stub.Issuer, ClientId: client, Scope: stub.Ptr("openid offline_access"), Audience: stub.Ptr("aud-" + client)})
	vs.Assert(err == nil && res.GetDeviceCode() != "" && res.GetUserCode() != "", "device authorization refused")
	return res
}

func (w *world) approve(code, subject string) error {
	_, err := w.dev.Validate(stub.Ctx(), &flowv1.DeviceCodeValidationRequest{Issuer: stub.Issuer, UserCode: code, Subject: subject})
	return err
}

func (w *world) poll(client, code string) (*flowv1.TokenResponse, error) {
	return w.tok.Token(stub.Ctx(), &flowv1.TokenRequest{Issuer: stub.Issuer, Client: stub.Caller(client), GrantType: stub.GrantDevice,
		Grant: &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{ClientId: client, DeviceCode: code}}})
}

// Two devices of two clients, approved and polled in any order.
//
//gosym:bounds 2 device authorizations by 2 clients with any distinct generated codes, 4 steps each an approval of either user code by either of 2 subjects or a poll by either client with either device code, 0 to 100 seconds apart
//gosym:cover pending,token,foreign,late
func CheckFlow() {
	now := stub.Now("now")
	start := now
	w := open()
	clients := []string{"c", "d"}
	r := []*flowv1.DeviceAuthorizationResponse{w.authorize("c"), w.authorize("d")}
	vs.Assume(vs.And(r[0].DeviceCode != r[1].DeviceCode, r[0].UserCode != r[1].UserCode))
	vs.Assert(vs.And(r[0].ExpiresIn > 0, r[1].ExpiresIn > 0), "no lifetime")
	life := int64(r[0].ExpiresIn)
	var by [2]string
	var approved [2]int64
	n := 4
	for i := 0; i < n; i++ {
		k := vs.Choose("device", 2)
		if vs.Choose("step", 2) == 0 {
			sub := []string{"alice", "bob"}[vs.Choose("subject", 2)]
			if w.approve(r[k].UserCode, sub) == nil {
				vs.Assert(by[k] == "", "user code approved twice")
				vs.Assert(now <= start+life, "expired user code approved")
				by[k], approved[k] = sub, now
			} else {
				vs.Assert(vs.Or(by[k] != "", now >= start+life), "right approval refused")
			}
		} else {
			c := vs.Choose("client", 2)
			res, err := w.poll(clients[c], r[k].DeviceCode)
			code := res.GetError().GetErr()
			switch {
			case err == nil:
				vs.Assert(by[k] != "", "token before the approval")
				vs.Assert(c == k, "token for another client")
				vs.Assert(now <= start+life, "token after expiry")
				m := res.GetAccessToken().GetMetadata()
				vs.Assert(m != nil && m.Subject == by[k] && m.ClientId == clients[k] && m.Audience == "aud-"+clients[k] && m.Scope == "openid offline_access", "token of another identity")
				vs.Cover("token")
			case c != k:
				vs.Cover("foreign")
			case by[k] == "":
				if now < start+life {
					vs.Assert(code == "authorization_pending", "undecided device code not reported as pending")
					vs.Cover("pending")
				} else {
					vs.Cover("late")
				}
			default:
				vs.Assert(now >= start+life, "approved device code refused")
				vs.Cover("late")
			}
			vs.Assert(err == nil || (res != nil && stub.NoTokens(res)), "refused poll returned a token")
		}
		now += vs.Int64Range("dt", 0, 100)
		vs.SetNow(now)
	}
}

// A redeemed device code is presented again.
//
//gosym:bounds 1 device authorization, approval, 2 polls at any instants up to 3 minutes apart
//gosym:cover first
func CheckAgain() {
	now := stub.Now("now")
	w := open()
	r := w.authorize("c")
	vs.Assert(w.approve(r.UserCode, "alice") == nil, "approval refused")
	_, err := w.poll("c", r.DeviceCode)
	vs.Assert(err == nil, "approved device code refused")
	vs.Cover("first")
	vs.SetNow(now + vs.Int64Range("dt", 0, 180))
	_, err = w.poll("d", r.DeviceCode)
	vs.Assert(err != nil, "redeemed device code redeemed by another client")
	_, err = w.poll("c", r.DeviceCode)
	vs.Assert(err != nil, "redeemed device code redeemed again by its client before its expiry")
}

// An approval at the same time as polls.
//
//gosym:bounds 1 device authorization, 1 thread approving and 1 polling, scheduling points at every lock, at most 3 preemptions
//gosym:cover token,pending
func CheckConcurrent() {
	stub.Now("now")
	w := open()
	w.l.Off = true
	r := w.authorize("c")
	var aerr, perr error
	var res *flowv1.TokenResponse
	vs.Go(func() { aerr = w.approve(r.UserCode, "alice") })
	vs.Go(func() { res, perr = w.poll("c", r.DeviceCode) })
	vs.Join()
	vs.Assert(aerr == nil, "approval refused")
	if perr == nil {
		vs.Assert(res.GetAccessToken().GetMetadata().GetSubject() == "alice", "token of another subject")
		vs.Cover("token")
	} else {
		vs.Assert(res.GetError().GetErr() == "authorization_pending", "undecided device code not reported as pending")
		vs.Cover("pending")
	}
	res, perr = w.poll("c", r.DeviceCode)
	vs.Assert(perr == nil && res.GetAccessToken().GetMetadata().GetSubject() == "alice", "approved device code refused")
}
