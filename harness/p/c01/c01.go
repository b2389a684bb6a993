// Package c01: device authorization registers a pending session with fresh codes.
package c01

import (
	"strings"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/server/services/device"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// A device authorization succeeds exactly for a registered client and stores what it returns.
//
//gosym:bounds issuers, client ids, scopes, audiences and codes of up to 2 arbitrary bytes (scope and audience may be absent), grant types over 3 sets, any stored lifetime, request absent, every dependency may fail
//gosym:cover ok,refused,fault,unregistered,unknown
func CheckAuthorize() {
	l := &stub.Log{MayFail: true}
	cid := vs.StrRange("cid", 1, 2)
	c := stub.AllGrants(cid)
	c.GrantTypes = []string{stub.GrantCode, vs.Pick("grant", stub.GrantDevice, "device_code", "")}
	store := &stub.Devices{L: l, TTL: vs.Uint64("ttl")}
	dev, usr := &stub.Gen{L: l, Name: "device", Value: vs.StrRange("device", 1, 2)}, &stub.Gen{L: l, Name: "user", Value: vs.StrRange("user", 1, 2)}
	other := stub.AllGrants("zzz")
	vs.Fill("client", c, stub.FillMax)
	vs.Fill("other", other, stub.FillMax)
	svc := device.New(&stub.Clients{L: l, List: []*clientv1.Client{c, other}}, store, dev, usr)
	in := &flowv1.DeviceAuthorizationRequest{Issuer: vs.Str("issuer", 2), ClientId: vs.Str("client", 2), Scope: stub.Opt("scope", vs.Str("scope", 2)), Audience: stub.Opt("aud", vs.Str("aud", 2))}
	var req *flowv1.DeviceAuthorizationRequest
	if vs.Bool("given") {
		req = in
	}
	res, err := svc.Authorize(stub.Ctx(), req)
	vs.Assert(res != nil, "no response")
	known := in.ClientId == cid
	reg := strings.EqualFold(c.GrantTypes[1], stub.GrantDevice)
	ok := vs.And(req != nil, in.Issuer != "", known, reg)
	if err != nil {
		vs.Assert(res.Error != nil && res.Error.Err != "", "refused without an error code")
		vs.Assert(vs.And(res.DeviceCode == "", res.UserCode == ""), "refused authorization returned a code")
		vs.Assert(l.Count("devices.Register") == 0, "refused authorization left a session")
		if l.Fault {
			vs.Cover("fault")
			return
		}
		vs.Assert(!ok, "right device authorization refused")
		vs.Cover("refused")
		if known && req != nil {
			vs.Cover("unregistered")
		} else {
			vs.Cover("unknown")
		}
		return
	}
	vs.Cover("ok")
	vs.Assert(ok, "device authorization for an unknown or unregistered client")
	vs.Assert(res.Error == nil, "success with an error")
	vs.Assert(vs.And(res.DeviceCode == dev.Value, res.UserCode == usr.Value), "other codes than the generated ones")
	vs.Assert(vs.And(res.ExpiresIn == store.TTL, res.Issuer == in.Issuer, res.Interval > 0), "lifetime, issuer or interval")
	vs.Assert(l.Tried("devices.Register") == 1, "not exactly one session")
	e := l.Get("devices.Register")
	if e == nil {
		vs.Assert(false, "no session")
		return
	}
	vs.Assert(vs.And(e.Issuer == in.Issuer, e.Key == res.UserCode), "session under another issuer or user code")
	for _, g := range []string{"device.Generate", "user.Generate"} {
		if x := l.Get(g); x != nil {
			vs.Assert(x.Issuer == in.Issuer, "code generated for another issuer")
		}
	}
	s := e.Val.(*sessionv1.DeviceCodeSession)
	vs.Assert(s.Status == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING, "session not pending")
	vs.Assert(s.Subject == nil, "session already has a subject")
	vs.Assert(vs.And(s.Issuer == in.Issuer, s.DeviceCode == res.DeviceCode), "session of another issuer or device code")
	vs.Assert(s.Client != nil && s.Request != nil, "session without client or request")
	if s.Client != nil && s.Request != nil {
		vs.Assert(vs.And(s.Client.ClientId == cid, s.Request.ClientId == cid), "session of another client")
	}
	vs.Assert(stub.SamePtr(s.Scope, in.Scope), "another scope")
	vs.Assert(stub.SamePtr(s.Audience, in.Audience), "another audience")
}
