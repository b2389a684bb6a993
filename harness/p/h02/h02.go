// Package h02: generated codes and references have the promised shape and validate.
package h02

import (
	"context"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/zzverif/vs"
)

func in(s, cs string) bool {
	var set [256]bool
	for i := 0; i < len(cs); i++ {
		set[cs[i]] = true
	}
	ok := true
	for i := 0; i < len(s); i++ {
		ok = vs.And(ok, set[s[i]])
	}
	return ok
}

const alnum = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"

// Every generator produces its documented shape, and its own validation accepts it.
//
//gosym:bounds every output of the random source
//gosym:cover authcode,devicecode,alpha,num,client,uri,opaque
func CheckGenerate() {
	ctx, iss := context.Background(), vs.Str("issuer", 4)
	switch vs.Choose("which", 7) {
	case 0:
		g := generator.DefaultAuthorizationCode()
		c, err := g.Generate(ctx, iss)
		vs.Cover("authcode")
		vs.Assert(err == nil && len(c) == generator.DefaultAuthorizationCodeLen, "authorization code length")
		vs.Assert(in(c, alnum), "authorization code alphabet")
		vs.Assert(g.Validate(ctx, iss, c) == nil, "generated authorization code refused")
	case 1:
		g := generator.DefaultDeviceCode()
		c, err := g.Generate(ctx, iss)
		vs.Cover("devicecode")
		vs.Assert(err == nil && len(c) == generator.DefaultDeviceCodeLen, "device code length")
		vs.Assert(in(c, alnum), "device code alphabet")
		vs.Assert(g.Validate(ctx, iss, c) == nil, "generated device code refused")
	case 2:
		c, err := generator.DefaultDeviceUserCode().Generate(ctx, iss)
		vs.Cover("alpha")
		vs.Assert(err == nil && len(c) == 9 && c[4] == '-', "user code shape")
		vs.Assert(in(c[:4]+c[5:], "BCDFGHJKLMNPQRSTVWXZ"), "user code alphabet")
	case 3:
		c, err := generator.DefaultNumDeviceUserCode().Generate(ctx, iss)
		vs.Cover("num")
		vs.Assert(err == nil && len(c) == 11 && c[3] == '-' && c[7] == '-', "numeric user code shape")
		vs.Assert(in(c[:3]+c[4:7]+c[8:], "0123456789"), "numeric user code alphabet")
	case 4:
		c, err := generator.DefaultClientID().Generate(ctx)
		vs.Cover("client")
		vs.Assert(err == nil && len(c) == generator.DefaultClientIDLen, "client id length")
		vs.Assert(in(c, alnum), "client id alphabet")
	case 5:
		c, err := token.OpaqueToken().Generate(ctx, &tokenv1.Token{})
		vs.Cover("opaque")
		vs.Assert(err == nil && len(c) == 4+token.DefaultOpaqueTokenLen && c[3] == '.', "opaque token shape")
		vs.Assert(in(c[:3]+c[4:], alnum), "opaque token alphabet")
	default:
		g := generator.DefaultRequestURI()
		c, err := g.Generate(ctx, iss)
		vs.Cover("uri")
		vs.Assert(err == nil && len(c) == len("urn:solid:")+generator.DefaultRequestURILen, "request_uri length")
		vs.Assert(c[:10] == "urn:solid:" && in(c[10:], alnum), "request_uri shape")
		vs.Assert(g.Validate(ctx, iss, c) == nil, "generated request_uri refused")
	}
}

func space(b byte) bool {
	return vs.Or(b == ' ', b == '\t', b == '\n', b == '\v', b == '\f', b == '\r')
}

// Validation of codes accepts nothing but a value of the promised length.
//
//gosym:bounds candidates of 30 to 34 ASCII bytes without surrounding white space
//gosym:cover accept,refuse
func CheckValidateCode() {
	ctx := context.Background()
	c := vs.StrIn("candidate", 30, 34, ascii())
	vs.Assume(!space(c[0]))
	vs.Assume(!space(c[len(c)-1]))
	var err error
	if vs.Bool("device") {
		err = generator.DefaultDeviceCode().Validate(ctx, "iss", c)
	} else {
		err = generator.DefaultAuthorizationCode().Validate(ctx, "iss", c)
	}
	if err == nil {
		vs.Cover("accept")
	} else {
		vs.Cover("refuse")
	}
	vs.Assert((err == nil) == (len(c) == 32), "code validation differs from the promised length")
}

func ascii() string {
	b := make([]byte, 0, 128)
	for i := 1; i < 128; i++ {
		b = append(b, byte(i))
	}
	return string(b)
}

// Validation of request references accepts exactly the promised shape.
//
//gosym:bounds candidates of 40 to 44 ASCII bytes without surrounding white space, and short ones up to 4 bytes
//gosym:cover accept,refuse,short
func CheckValidateURI() {
	ctx := context.Background()
	g := generator.DefaultRequestURI()
	if vs.Bool("short") {
		vs.Cover("short")
		vs.Assert(g.Validate(ctx, "iss", vs.StrIn("c", 0, 4, ascii())) != nil, "short request_uri accepted")
		return
	}
	c := vs.StrIn("candidate", 40, 44, ascii())
	vs.Assume(!space(c[0]))
	vs.Assume(!space(c[len(c)-1]))
	err := g.Validate(ctx, "iss", c)
	good := vs.And(len(c) == 42, c[:10] == "urn:solid:", in(c[10:], alnum))
	if err == nil {
		vs.Cover("accept")
	} else {
		vs.Cover("refuse")
	}
	vs.Assert((err == nil) == good, "request_uri validation differs from the promised shape")
}
