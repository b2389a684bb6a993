package h09

import (
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// Long values are encrypted and returned whole.
//
//gosym:bounds inner value, content type and encrypted value of 601 or 5001 characters, one of each chosen by the solver
//gosym:cover ok
func CheckLong() {
	sh := vs.Choose("shape", stub.Shapes)
	i := &inner{Serializer: stub.Serializer{Out: stub.Long(sh, "signed")}, ct: stub.Long(sh, "ct")}
	e := &encrypter{out: stub.Long(sh, "out")}
	v, err := token.Encryption(i, e).Serialize(stub.Ctx(), &claims{Sub: stub.Long(sh, "sub")})
	vs.Assert(err == nil && v == e.out, "another value than the encrypted one")
	vs.Assert(vs.And(e.value == i.Out, e.ct == i.ct), "another value encrypted than the signed one")
	vs.Cover("ok")
}
