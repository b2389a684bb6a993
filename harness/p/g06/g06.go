// Package g06: a token is usable exactly inside its validity window.
package g06

import (
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/zzverif/vs"
)

// Usability of any token at any instant follows its window.
//
//gosym:bounds every 64-bit expiry, not-before and issue time, every 40-bit clock value
//gosym:cover usable,expired,early,nometa,nil
func CheckUsable() {
	now := vs.Int64Range("now", 0, 1<<40)
	vs.SetNow(now)
	switch vs.Choose("shape", 3) {
	case 0:
		vs.Assert(!token.IsUsable(nil), "nil token usable")
		vs.Cover("nil")
	case 1:
		vs.Assert(!token.IsUsable(&tokenv1.Token{Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE}), "token without metadata usable")
		vs.Cover("nometa")
	default:
		exp, nbf, iat := vs.Uint64("exp"), vs.Uint64("nbf"), vs.Uint64("iat")
		t := &tokenv1.Token{
			Status:   tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
			Metadata: &tokenv1.TokenMeta{IssuedAt: iat, ExpiresAt: exp, NotBefore: nbf},
		}
		got := token.IsUsable(t)
		if got {
			vs.Cover("usable")
			vs.Assert(exp >= uint64(now), "expired token usable")
			vs.Assert(nbf <= uint64(now), "token usable before its time")
		} else {
			vs.Assert(!(exp > uint64(now) && exp < 1<<62 && nbf <= uint64(now)), "token inside its window refused")
			if exp < uint64(now) {
				vs.Cover("expired")
			} else {
				vs.Cover("early")
			}
		}
	}
}
