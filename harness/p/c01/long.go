package c01

import (
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/server/services/device"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long values are stored and returned whole.
//
//gosym:bounds issuer, registered and requesting client, audience and codes of 601 or 5001 characters (clients alike but one), a scope of 63 words
//gosym:cover ok,unknown
func CheckLong() {
	sh := vs.Choose("shape", stub.Shapes)
	l := &stub.Log{}
	cid := stub.Long(sh, "client")
	store := &stub.Devices{L: l, TTL: 60}
	dev, usr := &stub.Gen{L: l, Name: "device", Value: stub.Long(sh, "device")}, &stub.Gen{L: l, Name: "user", Value: stub.Long(sh, "user")}
	svc := device.New(&stub.Clients{L: l, List: []*clientv1.Client{stub.AllGrants(cid)}}, store, dev, usr)
	in := &flowv1.DeviceAuthorizationRequest{Issuer: stub.Long(sh, "issuer"), ClientId: stub.LongAs(sh, "client", "asking"), Scope: stub.Ptr(stub.LongScope("scope", true)), Audience: stub.Ptr(stub.Long(sh, "audience"))}
	res, err := svc.Authorize(stub.Ctx(), in)
	vs.Assert((err == nil) == (in.ClientId == cid), "right authorization refused, or unknown client accepted")
	if err != nil {
		vs.Cover("unknown")
		return
	}
	vs.Cover("ok")
	vs.Assert(vs.And(res.DeviceCode == dev.Value, res.UserCode == usr.Value, res.Issuer == in.Issuer), "other codes than the generated ones")
	e := l.Get("devices.Register")
	vs.Assert(e != nil && e.Issuer == in.Issuer && e.Key == usr.Value, "session under another issuer or user code")
	if e == nil {
		return
	}
	s := e.Val.(*sessionv1.DeviceCodeSession)
	vs.Assert(vs.And(s.DeviceCode == dev.Value, stub.SamePtr(s.Scope, in.Scope), stub.SamePtr(s.Audience, in.Audience), s.GetClient().GetClientId() == cid, s.GetRequest().GetClientId() == cid), "session of another request")
}
