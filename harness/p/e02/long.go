package e02

import (
	"context"
	"strconv"

	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Proofs with long identifiers are told apart, and each is accepted once.
//
//gosym:bounds two proofs of two keys with identifiers of 601 or 5001 characters that differ in at most one, each presented twice; up to 15 seconds between
//gosym:cover same,different
func CheckLong() {
	v := verifier()
	now := vs.Int64Range("t", 1000000000, 2000000000)
	vs.SetNow(now)
	sh := vs.Choose("shape", stub.Shapes)
	jti := [2]string{stub.Long(sh, "jti"), stub.LongAs(sh, "jti", "other")}
	var p [2]string
	for i := range p {
		p[i] = proof(jti[i], uint64(now), 0)
		_, err := v.Verify(context.Background(), method0, url0, p[i])
		vs.Assert((err == nil) == (i == 0 || jti[0] != jti[1]), "proof accepted twice, or another one taken for it")
	}
	if jti[0] == jti[1] {
		vs.Cover("same")
	} else {
		vs.Cover("different")
	}
	vs.SetNow(now + vs.Int64Range("gap", 0, 15))
	for i := range p {
		_, err := v.Verify(context.Background(), method0, url0, p[i])
		vs.Assert(err != nil, "a proof was accepted twice")
	}
}

// A proof is refused the second time, however many others came in between.
//
//gosym:bounds 300 other proofs between, all within 15 seconds; the identifier of one character
//gosym:cover refused
func CheckMany() {
	v := verifier()
	now := vs.Int64Range("t", 1000000000, 2000000000)
	vs.SetNow(now)
	p := proof(vs.StrIn("jti", 1, 1, "aA~"), uint64(now), 0)
	_, err := v.Verify(context.Background(), method0, url0, p)
	vs.Assert(err == nil, "fitting proof refused")
	for i := 0; i < 300; i++ {
		_, err := v.Verify(context.Background(), method0, url0, proof("jti"+strconv.Itoa(i), uint64(now), 0))
		vs.Assert(err == nil, "fitting proof refused")
	}
	vs.SetNow(now + vs.Int64Range("gap", 0, 15))
	_, err = v.Verify(context.Background(), method0, url0, p)
	vs.Assert(err != nil, "a proof was accepted twice")
	vs.Cover("refused")
}
