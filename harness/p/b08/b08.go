// Package b08: device codes yield tokens only when approved, unexpired and to their client.
package b08

import (
	"strings"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// A poll succeeds exactly for an approved, unexpired session of this client at this issuer.
//
//gosym:bounds every status value in 0..5, expiry within 5 minutes of the present, issuers over 3 values, client ids, device codes and subjects of up to 2 arbitrary bytes, scopes over 5 values or absent, audience absent or of up to 2 arbitrary bytes, grant types over 2 sets, session parts absent, every dependency may fail
//gosym:cover issued,refused,pending,expired,fault,offline
func CheckPoll() {
	now := stub.Now("now")
	cid := vs.StrRange("cid", 1, 2)
	c := stub.AllGrants(cid)
	c.GrantTypes = []string{stub.GrantCode, vs.Pick("grant", stub.GrantDevice, "device_code", "")}
	t := stub.NewTok(true, c)
	t.Fill(cid, "", now)
	d := t.Devices
	d.Issuer, d.DeviceCode = vs.Pick("store.issuer", stub.Issuer, stub.Issuer2), vs.StrRange("store.code", 1, 2)
	s := d.S
	s.Issuer, s.DeviceCode = d.Issuer, d.DeviceCode
	s.Status = sessionv1.DeviceCodeStatus(vs.IntRange("status", 0, 5))
	s.ExpiresAt = uint64(now + vs.Int64Range("left", -300, 300))
	s.Request.ClientId = vs.Str("owner", 2)
	s.Client.ClientId = s.Request.ClientId
	s.Subject = stub.Opt("subject", vs.StrRange("subject", 1, 2))
	s.Scope = stub.Opt("scope", vs.Pick("scope", "openid", "offline_access", "a offline_access b", "offline_accessx", ""))
	s.Audience = stub.Opt("aud", vs.Str("aud", 2))
	switch vs.Choose("part", 3) {
	case 1:
		s.Request = nil
	case 2:
		s.Client = nil
	}
	whole := s.Request != nil && s.Client != nil
	owner := s.GetRequest().GetClientId()
	before := vs.Snapshot(s).(*sessionv1.DeviceCodeSession)
	in := &flowv1.TokenRequest{Issuer: vs.Pick("issuer", stub.Issuer, stub.Issuer2, "as"), Client: stub.Caller(cid), GrantType: stub.GrantDevice,
		Scope: stub.Opt("req.scope", "admin offline_access"), Audience: stub.Opt("req.aud", "other")}
	in.Grant = &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{ClientId: vs.Pick("grant.client", "", "x", cid), DeviceCode: vs.Str("code", 2)}}
	res, err := t.Svc.Token(stub.Ctx(), in)
	vs.Assert(vs.Same(s, before), "polling changed the session")
	reg := strings.EqualFold(c.GrantTypes[1], stub.GrantDevice)
	known := vs.And(in.Issuer == d.Issuer, in.GetDeviceCode().DeviceCode == d.DeviceCode)
	mine := vs.And(known, whole, owner == cid)
	approved := s.Status == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED
	expired := s.ExpiresAt < uint64(now)
	if err != nil {
		vs.Assert(res != nil && stub.NoTokens(res), "refused poll returned a token")
		if t.L.Fault {
			vs.Cover("fault")
			return
		}
		vs.Assert(!vs.And(reg, mine, approved, !expired, s.Subject != nil), "approved device code refused")
		vs.Assert(t.L.Tried("tokens.Create") == 0, "refused poll changed the store")
		vs.Cover("refused")
		code := res.GetError().GetErr()
		if reg && mine {
			if s.ExpiresAt < uint64(now) {
				vs.Assert(code == "expired_token", "expired device code not reported as expired")
				vs.Cover("expired")
			} else if s.Status == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {
				vs.Assert(code == "authorization_pending", "undecided device code not reported as pending")
				vs.Cover("pending")
			} else {
				vs.Assert(code != "authorization_pending", "decided device code reported as pending")
			}
		} else {
			vs.Assert(vs.And(code != "authorization_pending", code != "expired_token"), "state of a foreign device code revealed")
		}
		return
	}
	vs.Cover("issued")
	vs.Assert(reg, "client not registered for the grant")
	vs.Assert(mine, "foreign device code accepted")
	vs.Assert(approved, "unapproved device code accepted")
	vs.Assert(!expired, "expired device code accepted")
	vs.Assert(s.Subject != nil, "device code without subject accepted")
	a := res.AccessToken
	if a == nil || a.Metadata == nil || s.Subject == nil {
		vs.Assert(false, "no access token")
		return
	}
	m := a.Metadata
	vs.Assert(m.Subject == *s.Subject, "token of another subject")
	vs.Assert(m.ClientId == cid, "token of another client")
	vs.Assert(m.Scope == s.GetScope(), "token of another scope")
	vs.Assert(m.Audience == s.GetAudience(), "token of another audience")
	off := false
	for _, w := range strings.Fields(s.GetScope()) {
		off = off || w == "offline_access"
	}
	vs.Assert(off == (res.RefreshToken != nil), "refresh token without offline access, or the reverse")
	if r := res.RefreshToken; r != nil {
		vs.Cover("offline")
		vs.Assert(r.Metadata.Subject == *s.Subject && r.Metadata.ClientId == cid && r.Metadata.Scope == s.GetScope() && r.Metadata.Audience == s.GetAudience(), "refresh token of another identity")
	}
}
