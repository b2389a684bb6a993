// Package h09: the encrypting serializer encrypts what was signed and returns only what was encrypted.
package h09

import (
	"context"

	"zntr.io/solid/sdk/token"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Inner records the claims it is given.
type inner struct {
	stub.Serializer
	ct string
}

func (i *inner) ContentType() string { return i.ct }

type encrypter struct {
	calls     int
	ct, value string
	aad       string
	fail      bool
	out       string
	ctx       context.Context
}

func (e *encrypter) Encrypt(ctx context.Context, contentType, token string, aad []byte) (string, error) {
	e.calls++
	e.ctx, e.ct, e.value, e.aad = ctx, contentType, token, string(aad)
	if e.fail {
		return e.out, &stub.Failure{Op: "encrypt"}
	}
	return e.out, nil
}

type claims struct {
	Sub string
	N   uint64
}

// The value returned is the encryption of the signed value; a failure on the way returns none.
//
//gosym:bounds inner values, content types, encrypted values and claims of up to 4 arbitrary bytes, a serializer and an encrypter that fail, are absent, or are nil pointers
//gosym:cover ok,signfail,encfail,missing
func CheckEncrypt() {
	i := &inner{Serializer: stub.Serializer{Out: vs.Str("signed", 4), Fail: vs.Bool("sign.fail")}, ct: vs.Str("ct", 4)}
	e := &encrypter{fail: vs.Bool("enc.fail"), out: vs.Str("out", 4)}
	var si token.Serializer = i
	var en token.Encrypter = e
	missing := true
	switch vs.Choose("shape", 5) {
	case 0:
		missing = false
	case 1:
		si = nil
	case 2:
		var p *inner
		si = p
	case 3:
		en = nil
	case 4:
		var p *encrypter
		en = p
	}
	c := &claims{Sub: vs.Str("sub", 4), N: vs.Uint64("n")}
	before := vs.Snapshot(c)
	ctx := stub.Ctx()
	v, err := token.Encryption(si, en).Serialize(ctx, c)
	vs.Assert(vs.Same(c, before), "encryption changed the claims")
	if missing {
		vs.Assert(err != nil && v == "", "value without a signer or an encrypter")
		vs.Assert(e.calls == 0, "value encrypted without a signer or an encrypter")
		vs.Cover("missing")
		return
	}
	vs.Assert(i.Calls == 1, "claims not signed exactly once")
	got, ok := i.Claims.(*claims)
	vs.Assert(ok && got == c, "other claims signed")
	if i.Fail {
		vs.Assert(err != nil && v == "", "value without a signature")
		vs.Assert(e.calls == 0, "unsigned value encrypted")
		vs.Cover("signfail")
		return
	}
	vs.Assert(e.calls == 1, "signed value not encrypted exactly once")
	vs.Assert(e.value == i.Out, "another value than the signed one encrypted")
	vs.Assert(e.ct == i.ct, "signed value encrypted under another content type")
	vs.Assert(e.aad == "urn:solid:token:sign-and-encrypt", "encrypted for another purpose")
	if e.fail {
		vs.Assert(err != nil && v == "", "value despite a failed encryption")
		vs.Cover("encfail")
		return
	}
	vs.Assert(err == nil && v == e.out, "another value than the encrypted one")
	vs.Cover("ok")
}

// The composed serializer does not announce the content type of the signed value.
//
//gosym:bounds inner content types of up to 8 arbitrary bytes other than HYBRID
//gosym:cover ok
func CheckContentType() {
	i := &inner{ct: vs.Str("ct", 8)}
	vs.Assume(i.ct != "HYBRID")
	ct := token.Encryption(i, &encrypter{}).ContentType()
	vs.Assert(ct != i.ct && ct == "HYBRID", "encrypted values announced as signed ones")
	vs.Cover("ok")
}
