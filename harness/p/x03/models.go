package x03

// Models the engine uses for the two reflection-driven libraries of the example server.

import (
	"encoding/json"

	"github.com/davecgh/go-spew/spew"
	jsoniter "github.com/json-iterator/go"
)

type stdAPI struct{ jsoniter.API }

func (stdAPI) Marshal(v any) ([]byte, error) { return json.Marshal(v) }

//gosym:replace github.com/json-iterator/go.init
func jsonInit() { jsoniter.ConfigCompatibleWithStandardLibrary = stdAPI{} }

//gosym:replace github.com/davecgh/go-spew/spew.Dump
func dump(...any) {}

var _ = spew.Dump
