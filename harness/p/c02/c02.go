// Package c02: a user code is approved once, unexpired, and records who approved it.
package c02

import (
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/server/services/device"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

const (
	pending   = sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING
	validated = sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED
)

// One approval of any stored session.
//
//gosym:bounds every status value in 0..5, expiry within 5 minutes of the present, issuers, user codes and subjects of up to 2 arbitrary bytes, session parts absent, session already holding a subject, request absent, every dependency may fail
//gosym:cover approved,refused,expired,decided,unknown,fault
func CheckApprove() {
	now := stub.Now("now")
	l := &stub.Log{MayFail: true}
	d := &stub.Devices{L: l, Issuer: vs.StrRange("store.issuer", 1, 2), UserCode: vs.StrRange("store.code", 1, 2), DeviceCode: "device"}
	s := &sessionv1.DeviceCodeSession{Issuer: d.Issuer, Client: &clientv1.Client{ClientId: "c"}, Request: &flowv1.DeviceAuthorizationRequest{ClientId: "c", Issuer: d.Issuer}, DeviceCode: "device",
		Scope: stub.Ptr("openid"), Audience: stub.Ptr("aud"), Status: sessionv1.DeviceCodeStatus(vs.IntRange("status", 0, 5)), ExpiresAt: uint64(now + vs.Int64Range("left", -300, 300))}
	if vs.Bool("had") {
		s.Subject = stub.Ptr(vs.Str("before", 2))
	}
	switch vs.Choose("part", 3) {
	case 1:
		s.Request = nil
	case 2:
		s.Client = nil
	}
	whole := s.Request != nil && s.Client != nil
	d.S = s
	before := vs.Snapshot(s).(*sessionv1.DeviceCodeSession)
	svc := device.New(&stub.Clients{L: l}, d, &stub.Gen{L: l, Name: "device"}, &stub.Gen{L: l, Name: "user"})
	in := &flowv1.DeviceCodeValidationRequest{Issuer: vs.Str("issuer", 2), UserCode: vs.Str("code", 2), Subject: vs.Str("subject", 2)}
	var req *flowv1.DeviceCodeValidationRequest
	if vs.Bool("given") {
		req = in
	}
	res, err := svc.Validate(stub.Ctx(), req)
	vs.Assert(res != nil, "no response")
	known := vs.And(in.Issuer == d.Issuer, in.UserCode == d.UserCode)
	open := vs.And(before.Status == pending, before.ExpiresAt >= uint64(now))
	ok := vs.And(req != nil, known, whole, open, in.Subject != "")
	vs.Assert(l.Tried("devices.Register") == 0, "approval registered a session")
	if err != nil {
		vs.Assert(res.Error != nil && res.Error.Err != "", "refused without an error code")
		if l.Fault {
			vs.Assert(vs.Or(ok, l.Tried("devices.Validate") == 0), "refused approval reached the store")
			vs.Cover("fault")
			return
		}
		vs.Assert(!ok, "right approval refused")
		vs.Assert(l.Tried("devices.Validate") == 0 && l.Tried("devices.Delete") == 0, "refused approval changed the store")
		vs.Assert(vs.Same(s, before), "refused approval changed the session")
		vs.Cover("refused")
		if known && whole && req != nil && in.Subject != "" {
			if before.ExpiresAt < uint64(now) {
				vs.Cover("expired")
			} else {
				vs.Cover("decided")
			}
		} else {
			vs.Cover("unknown")
		}
		return
	}
	vs.Cover("approved")
	vs.Assert(ok, "approval of a foreign, expired or decided session, or by nobody")
	vs.Assert(res.Error == nil, "success with an error")
	vs.Assert(l.Tried("devices.Validate") == 1, "approval not recorded once")
	e := l.Get("devices.Validate")
	if e == nil {
		vs.Assert(false, "approval not recorded")
		return
	}
	vs.Assert(vs.And(e.Issuer == in.Issuer, e.Key == in.UserCode), "approval recorded elsewhere")
	n := e.Val.(*sessionv1.DeviceCodeSession)
	vs.Assert(n.Status == validated, "approval not recorded as such")
	vs.Assert(n.Subject != nil && *n.Subject == in.Subject, "another subject recorded")
	before.Status, before.Subject = n.Status, n.Subject
	vs.Assert(vs.Same(n, before), "approval changed more than status and subject")
}

func session(code string) *sessionv1.DeviceCodeSession {
	return &sessionv1.DeviceCodeSession{Issuer: stub.Issuer, Client: &clientv1.Client{ClientId: "c"}, Request: &flowv1.DeviceAuthorizationRequest{ClientId: "c", Issuer: stub.Issuer}, DeviceCode: code, Status: pending}
}

// Approvals one after the other over the in-memory store.
//
//gosym:bounds 2 sessions, 3 approvals of either user code or an unknown one, at the issuer or another, by either of 2 subjects, 0 to 100 seconds apart
//gosym:cover approved,again,late
func CheckHistory() {
	now := stub.Now("now")
	start := now
	l := &stub.Log{}
	sto := inmemory.DeviceCodeSessions()
	svc := device.New(&stub.Clients{L: l}, sto, &stub.Gen{L: l, Name: "device"}, &stub.Gen{L: l, Name: "user"})
	codes := []string{"u1", "u2"}
	life := int64(0)
	for i, c := range codes {
		n, err := sto.Register(stub.Ctx(), stub.Issuer, c, session([]string{"d1", "d2"}[i]))
		vs.Assert(err == nil && n > 0, "session not stored")
		life = int64(n)
	}
	var by [2]string
	for i := 0; i < 3; i++ {
		k := vs.Choose("code", 3)
		code := []string{"u1", "u2", "d1"}[k]
		iss := []string{stub.Issuer, stub.Issuer2}[vs.Choose("issuer", 2)]
		sub := vs.Pick("subject", "alice", "bob")
		_, err := svc.Validate(stub.Ctx(), &flowv1.DeviceCodeValidationRequest{Issuer: iss, UserCode: code, Subject: sub})
		if err == nil {
			vs.Assert(k < 2 && iss == stub.Issuer, "unknown user code approved")
			vs.Assert(now <= start+life, "expired user code approved")
			if k < 2 {
				vs.Assert(by[k] == "", "user code approved twice")
				by[k] = sub
			}
			vs.Cover("approved")
		} else if k < 2 && iss == stub.Issuer {
			if by[k] != "" {
				vs.Cover("again")
			} else {
				vs.Assert(now >= start+life, "right approval refused")
				vs.Cover("late")
			}
		}
		for j, c := range []string{"d1", "d2"} {
			x, err := sto.GetByDeviceCode(stub.Ctx(), stub.Issuer, c)
			if err == nil {
				vs.Assert((x.Status == validated) == (by[j] != ""), "approval of another session")
				vs.Assert(vs.Or(by[j] == "", x.GetSubject() == by[j]), "another subject recorded")
			}
		}
		now += vs.Int64Range("dt", 0, 100)
		vs.SetNow(now)
	}
}

// Approvals at the same time over the in-memory store.
//
//gosym:bounds 2 threads approving one user code for 2 subjects, scheduling points at every lock, at most 3 preemptions
//gosym:cover one
func CheckConcurrent() {
	stub.Now("now")
	l := &stub.Log{Off: true}
	sto := inmemory.DeviceCodeSessions()
	svc := device.New(&stub.Clients{L: l}, sto, &stub.Gen{L: l, Name: "device"}, &stub.Gen{L: l, Name: "user"})
	sto.Register(stub.Ctx(), stub.Issuer, "u1", session("d1"))
	var ok [2]bool
	subs := []string{"alice", "bob"}
	for i := 0; i < 2; i++ {
		i := i
		vs.Go(func() {
			_, err := svc.Validate(stub.Ctx(), &flowv1.DeviceCodeValidationRequest{Issuer: stub.Issuer, UserCode: "u1", Subject: subs[i]})
			ok[i] = err == nil
		})
	}
	vs.Join()
	vs.Assert(!(ok[0] && ok[1]), "user code approved twice at the same time")
	vs.Assert(ok[0] || ok[1], "approval lost")
	x, err := sto.GetByDeviceCode(stub.Ctx(), stub.Issuer, "d1")
	vs.Assert(err == nil && x.Status == validated, "approval not recorded")
	for i := range subs {
		if ok[i] && !ok[1-i] {
			vs.Assert(x.GetSubject() == subs[i], "another subject recorded")
		}
	}
	vs.Cover("one")
}
