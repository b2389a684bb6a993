package stub

import (
	"context"
	"encoding/json"

	"zntr.io/solid/zzverif/vs"
)

// Serializer records the claims it is given.
type Serializer struct {
	Calls  int
	Claims any
	Fail   bool
	Out    string
}

func (s *Serializer) Serialize(_ context.Context, claims any) (string, error) {
	s.Calls++
	s.Claims = claims
	if s.Fail {
		return "ignored", &Failure{"serialize"}
	}
	return s.Out, nil
}

func (s *Serializer) ContentType() string { return "INNER" }

// Decode reads the claims as a consumer does, and the names of the members that are present.
func (s *Serializer) Decode(into any) map[string]any {
	b, err := json.Marshal(s.Claims)
	vs.Assert(err == nil, "claims without a JSON form")
	vs.Assert(json.Unmarshal(b, into) == nil, "claims that do not decode")
	m := map[string]any{}
	vs.Assert(json.Unmarshal(b, &m) == nil, "claims are not an object")
	return m
}
