package e03

import (
	"context"

	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Proofs for long URLs and tokens are accepted too.
//
//gosym:bounds URLs and tokens of 601 or 5001 characters, one of them chosen by the solver
//gosym:cover accepted
func CheckLong() {
	vs.SetNow(1700000000)
	sh := vs.Choose("shape", stub.Shapes)
	u, tok := "https://rs.example/"+stub.Long(sh, "url"), stub.Long(sh, "token")
	p, err := prover(0).Prove("POST", u+"?q=1", dpop.WithTokenValue(tok))
	vs.Assert(err == nil, "a proof could not be made")
	_, err = verifier().Verify(context.Background(), "POST", u, p, dpop.WithTokenValue(tok), dpop.WithTokenConfirmation(jt.Thumb(0)))
	vs.Assert(err == nil, "the library's own proof was refused")
	vs.Cover("accepted")
}
