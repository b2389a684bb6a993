package c02

import (
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/server/services/device"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long values are compared and recorded whole.
//
//gosym:bounds issuer and subject of 601 or 5001 characters, stored and presented user code of 601 or 5001 that differ in at most one, a session with a scope of 63 words
//gosym:cover approved,unknown
func CheckLong() {
	now := stub.Now("now")
	sh := vs.Choose("shape", stub.Shapes)
	l := &stub.Log{}
	d := &stub.Devices{L: l, Issuer: stub.Long(sh, "issuer"), UserCode: stub.Long(sh, "user"), DeviceCode: "device"}
	d.S = &sessionv1.DeviceCodeSession{Issuer: d.Issuer, Client: &clientv1.Client{ClientId: stub.Long(sh, "client")}, Request: &flowv1.DeviceAuthorizationRequest{ClientId: stub.Long(sh, "client"), Issuer: d.Issuer}, DeviceCode: "device",
		Scope: stub.Ptr(stub.LongScope("scope", true)), Audience: stub.Ptr(stub.Long(sh, "audience")), Status: pending, ExpiresAt: uint64(now) + 60}
	before := vs.Snapshot(d.S).(*sessionv1.DeviceCodeSession)
	code, subject := stub.LongAs(sh, "user", "presented"), stub.Long(sh, "subject")
	svc := device.New(&stub.Clients{L: l}, d, &stub.Gen{L: l, Name: "device"}, &stub.Gen{L: l, Name: "user"})
	_, err := svc.Validate(stub.Ctx(), &flowv1.DeviceCodeValidationRequest{Issuer: d.Issuer, UserCode: code, Subject: subject})
	vs.Assert((err == nil) == (code == d.UserCode), "right approval refused, or another user code approved")
	if err != nil {
		vs.Cover("unknown")
		return
	}
	vs.Cover("approved")
	e := l.Get("devices.Validate")
	vs.Assert(e != nil && e.Issuer == d.Issuer && e.Key == code, "approval recorded elsewhere")
	if e == nil {
		return
	}
	n := e.Val.(*sessionv1.DeviceCodeSession)
	vs.Assert(n.Status == validated && n.Subject != nil && *n.Subject == subject, "another subject recorded")
	before.Status, before.Subject = n.Status, n.Subject
	vs.Assert(vs.Same(n, before), "approval changed more than status and subject")
}
