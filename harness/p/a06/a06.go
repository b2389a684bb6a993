// Package a06: protocol errors carry their registered code and exactly what they were given.
package a06

import (
	"encoding/json"

	"zntr.io/solid/sdk/rfcerrors"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/vs"
)

var catalogue = []struct {
	code string
	make func() rfcerrors.ErrorBuilder
}{
	{"server_error", rfcerrors.ServerError},
	{"invalid_request", rfcerrors.InvalidRequest},
	{"invalid_scope", rfcerrors.InvalidScope},
	{"invalid_grant", rfcerrors.InvalidGrant},
	{"invalid_client", rfcerrors.InvalidClient},
	{"unauthorized_client", rfcerrors.UnauthorizedClient},
	{"unsupported_grant_type", rfcerrors.UnsupportedGrantType},
	{"invalid_token", rfcerrors.InvalidToken},
	{"authorization_pending", rfcerrors.AuthorizationPending},
	{"slow_down", rfcerrors.Slowdown},
	{"access_denied", rfcerrors.AccessDenied},
	{"expired_token", rfcerrors.TokenExpired},
	{"invalid_dpop_proof", rfcerrors.InvalidDPoPProof},
	{"invalid_redirect_uri", rfcerrors.InvalidRedirectURI},
	{"invalid_client_metadata", rfcerrors.InvalidClientMetadata},
	{"invalid_software_statement", rfcerrors.InvalidSoftwareStatement},
	{"unapproved_software_statement", rfcerrors.UnapprovedSoftwareStatement},
	{"invalid_target", rfcerrors.InvalidTarget},
	{"insufficient_user_authentication", rfcerrors.InsufficientUserAuthentication},
}

// An error states its registered code, the given state and description, and nothing else; two errors share nothing.
//
//gosym:bounds every error of the catalogue followed by every other one, states and descriptions of up to 4 bytes, given, absent, repeated or in either order
//gosym:cover state,bare,described
func CheckBuild() {
	a := catalogue[vs.Choose("first", len(catalogue))]
	b := catalogue[vs.Choose("second", len(catalogue))]
	state, text := vs.Str("state", 4), vs.Str("description", 4)
	standard := a.make().Build().ErrorDescription
	vs.Assert(standard != "", "error without a description")
	x := a.make()
	how := vs.Choose("how", 5)
	switch how {
	case 1:
		x = x.State(state)
	case 2:
		x = x.Description(text)
	case 3:
		x = x.State("old").Description(text).State(state)
	case 4:
		x = x.Description("old").State(state).Description(text)
	}
	e := x.Build()
	vs.Assert(e != nil && e.Err == a.code, "error with another code")
	vs.Assert(e.ErrorUri == nil && e.Resource == nil, "error states what it was not given")
	if how == 0 || how == 2 {
		vs.Cover("bare")
		vs.Assert(e.State == nil, "error invents a state")
	} else {
		vs.Cover("state")
		vs.Assert((e.State == nil) == (state == ""), "the state of the error is lost or blank")
		vs.Assert(e.State == nil || *e.State == state, "error with another state")
	}
	if how >= 2 {
		vs.Cover("described")
		vs.Assert(e.ErrorDescription == text, "error with another description")
	} else {
		vs.Assert(e.ErrorDescription == standard, "error without its standard description")
	}
	// A later error knows nothing of this one.
	f := b.make().Build()
	vs.Assert(f != e && f.Err == b.code && f.State == nil && f.ErrorUri == nil && f.Resource == nil, "an error inherits from an earlier one")
	vs.Assert(b.code != a.code || f.ErrorDescription == standard, "an error inherits a description")
	vs.Assert(e.Err == a.code, "an error is changed by a later one")
	// Building again from one builder does not share the state.
	g := x.State("other").Build()
	vs.Assert(*g.State == "other" && (e.State == nil || *e.State == state), "two errors of one builder share a state")
}

// On the wire an error keeps its code, state and description.
//
//gosym:bounds every error of the catalogue, printable states and descriptions of up to 3 characters
//gosym:cover wire
func CheckWire() {
	a := catalogue[vs.Choose("error", len(catalogue))]
	state, text := vs.StrIn("state", 1, 3, jt.Printable), vs.StrIn("description", 1, 3, jt.Printable)
	raw, err := json.Marshal(a.make().State(state).Description(text).Build())
	vs.Assert(err == nil, "error has no wire form")
	var m map[string]any
	vs.Assert(json.Unmarshal(raw, &m) == nil, "wire form of an error is no document")
	vs.Cover("wire")
	vs.Assert(m["err"] == a.code || m["error"] == a.code, "wire form lost the code")
	vs.Assert(m["state"] == state && m["error_description"] == text, "wire form lost the state or the description")
	vs.Assert(len(m) == 3, "wire form states more than the error")
}
