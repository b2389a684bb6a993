// Package e02: a DPoP proof is never accepted twice.
package e02

import (
	"context"
	"crypto/sha256"
	"encoding/base64"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zzverif/jt"
	"zntr.io/solid/zzverif/vs"
)

const url0, method0 = "https://rs.example/items", "POST"

func verifier() dpop.Verifier {
	return dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier([]jose.SignatureAlgorithm{jose.ES256, jose.ES384}))
}

func proof(jti string, iat uint64, key int) string {
	return jt.Sign(map[string]any{"alg": jt.Alg(key), "typ": "dpop+jwt", "jwk": jt.JWK(key, "", "")},
		map[string]any{"jti": jti, "htm": method0, "htu": url0, "iat": iat}, key)
}

func ath(token string) string {
	h := sha256.Sum256([]byte(token))
	return base64.RawURLEncoding.EncodeToString(h[:])
}

func ok(err error) bool { return err == nil }

// A second presentation is refused at any later instant.
//
//gosym:bounds every pair of instants from 2001 to 2033 with any time in between, every issue time, identifiers up to 2 characters
//gosym:cover refused,first
func CheckTwice() {
	v := verifier()
	t1 := vs.Int64Range("t1", 1000000000, 2000000000)
	gap := vs.Int64Range("gap", 0, 1000000)
	iat := uint64(vs.Int64Range("iat", 1000000000, 2000000000))
	p := proof(vs.StrIn("jti", 1, 2, "aA "), iat, 0)
	vs.SetNow(t1)
	_, err := v.Verify(context.Background(), method0, url0, p)
	if err != nil {
		vs.Stop()
	}
	vs.Cover("first")
	vs.SetNow(t1 + gap)
	_, err = v.Verify(context.Background(), method0, url0, p)
	vs.Assert(err != nil, "a proof was accepted twice")
	vs.Cover("refused")
}

// A proof that was accepted is refused in every other presentation.
//
//gosym:bounds methods in any case, 4 forms of the URL, with and without a token and a confirmation, both presentations within a second
//gosym:cover refused,first
func CheckForms() {
	v := verifier()
	vs.SetNow(1700000000)
	m := vs.Pick("htm", "POST", "post", "Post")
	jti := vs.StrIn("jti", 1, 2, "aA ")
	p := jt.Sign(map[string]any{"alg": jt.Alg(0), "typ": "dpop+jwt", "jwk": jt.JWK(0, "", "")},
		map[string]any{"jti": jti, "htm": m, "htu": url0, "iat": 1700000000, "ath": ath("token")}, 0)
	present := func(l string) bool {
		var opts []dpop.Option
		k := vs.Choose(l+" with", 4)
		if k&1 != 0 {
			opts = append(opts, dpop.WithTokenValue("token"))
		}
		if k&2 != 0 {
			opts = append(opts, dpop.WithTokenConfirmation(jt.Thumb(0)))
		}
		u := []string{url0, url0 + "?q=1", "HTTPS://RS.example/items", url0 + "#x"}[vs.Choose(l+" url", 4)]
		mm := vs.Pick(l+" method", "POST", "post", "Post", "GET")
		_, err := v.Verify(context.Background(), mm, u, p, opts...)
		return err == nil
	}
	if !present("first") {
		vs.Stop()
	}
	vs.Cover("first")
	vs.Assert(!present("second"), "a proof was accepted twice")
	vs.Cover("refused")
}

// Histories of presentations of two proofs: each is accepted once at most.
//
//gosym:bounds 3 presentations (4 in the thorough check) of two proofs of two keys with arbitrary identifiers, issue times and gaps up to 40 s, some presented for another request or with a foreign token
//gosym:cover both,refused
//gosym:weight 3
func CheckHistory() {
	v := verifier()
	now := vs.Int64Range("t0", 1000000000, 2000000000)
	var jti [2]string
	var p [2]string
	for i := range p {
		jti[i] = vs.StrIn("jti", 1, 2, "aA ")
		p[i] = proof(jti[i], uint64(now+vs.Int64Range("iat", -20, 60)), 2*i)
	}
	n := 3
	if vs.Thorough() {
		n = 4
	}
	var accepted [2]int
	for s := 0; s < n; s++ {
		now += vs.Int64Range("gap", 0, 40)
		vs.SetNow(now)
		i := vs.Choose("proof", 2)
		m, u := method0, url0
		var opts []dpop.Option
		switch vs.Choose("as", 3) {
		case 1:
			m = "GET"
		case 2:
			opts = append(opts, dpop.WithTokenConfirmation("elsewhere"))
		}
		if _, err := v.Verify(context.Background(), m, u, p[i], opts...); err == nil {
			accepted[i]++
			vs.Assert(accepted[i] < 2, "a proof was accepted twice")
		} else {
			vs.Cover("refused")
		}
	}
	if accepted[0] == 1 && accepted[1] == 1 {
		vs.Cover("both")
	}
}

// Of concurrent presentations one at most is accepted.
//
//gosym:bounds two goroutines presenting one proof to one verifier, interleaved at every synchronisation and store call
//gosym:cover accepted
//gosym:preempt 3
//gosym:weight 2
func CheckConcurrent() {
	v := verifier()
	t := vs.Int64Range("t", 1000000000, 2000000000)
	vs.SetNow(t)
	p := proof("0123456789abcdef", uint64(t), 0)
	var acc [2]bool
	for i := 0; i < 2; i++ {
		i := i
		vs.Go(func() {
			_, err := v.Verify(context.Background(), method0, url0, p)
			acc[i] = err == nil
		})
	}
	vs.Join()
	vs.Assert(!(acc[0] && acc[1]), "concurrent presentations of one proof were both accepted")
	vs.Assert(acc[0] || acc[1], "a genuine proof was refused by both presentations")
	vs.Cover("accepted")
}
