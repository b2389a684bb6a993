// Package x02: the strict profile only ever narrows what a client may register.
package x02

import (
	"zntr.io/solid/server/profile"
	"zntr.io/solid/zzverif/vs"
)

const (
	code    = "authorization_code"
	refresh = "refresh_token"
	device  = "urn:ietf:params:oauth:grant-type:device_code"
	creds   = "client_credentials"
)

type rule struct{ grants, responses []string }

// The published content of the strict profile.
var rules = map[string]rule{
	"web":     {[]string{code}, []string{"code"}},
	"native":  {[]string{code, refresh}, []string{"code"}},
	"device":  {[]string{device, refresh}, []string{"code"}},
	"service": {[]string{creds}, []string{"token"}},
}

func in(l []string, x string) bool {
	r := false
	for _, v := range l {
		r = vs.Or(r, v == x)
	}
	return r
}

// Only the published application types are offered, and they offer only what is published.
//
//gosym:bounds application type, grant, response type, method and scope are any strings of up to 46 bytes
//gosym:cover offered,unknown
func CheckOffer() {
	name := vs.Str("type", 9)
	c, ok := profile.Strict().ApplicationType(name)
	var r rule
	known := false
	for _, k := range []string{"web", "native", "device", "service"} {
		if name == k {
			r, known = rules[k], true
		}
	}
	vs.Assert(ok == known, "application types differ from the published ones")
	if !ok || !known {
		vs.Cover("unknown")
		return
	}
	vs.Cover("offered")
	vs.Assert(c != nil, "application type without a profile")
	x := vs.Str("grant", 46)
	vs.Assert(vs.Implies(in(c.GrantTypesSupported(), x), in(r.grants, x)), "grant beyond the published ones")
	y := vs.Str("response", 20)
	vs.Assert(vs.Implies(in(c.ResponseTypesSupported(), y), in(r.responses, y)), "response type beyond the published ones")
	z := vs.Str("method", 30)
	vs.Assert(vs.Implies(in(c.TokenEndpointAuthMethodsSupported(), z), z == "private_key_jwt"), "authentication method beyond the published one")
	// the first entries are the defaults of a registration
	vs.Assert(len(c.GrantTypesSupported()) == len(r.grants) && in(r.grants, c.GrantTypesSupported()[0]), "default grant not among the published ones")
	vs.Assert(len(c.ResponseTypesSupported()) == len(r.responses) && c.ResponseTypesSupported()[0] == r.responses[0], "default response type not among the published ones")
	vs.Assert(len(c.TokenEndpointAuthMethodsSupported()) == 1, "no default authentication method")
	// the answers stay the same
	d, _ := profile.Strict().ApplicationType(name)
	vs.Assert(vs.And(len(d.GrantTypesSupported()) == len(r.grants), len(d.DefaultScopes()) == len(c.DefaultScopes())), "the profile changes from one answer to the next")
}
