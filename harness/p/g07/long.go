package g07

import (
	"strings"

	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/zzverif/vs"
)

// Long secrets count to their last byte, and long prefixes to their last character.
//
//gosym:bounds secrets of 16, 32, 64, 65, 200 and 1000 bytes and prefixes of 1 to 300 characters, the issuing and the verifying one differ in at most their first, middle or last byte
//gosym:cover verified,refused
func CheckLong() {
	uuid, nonce := []byte("\x90uuid-0123456789"), []byte("\xffnonce-01234")
	n := []int{16, 32, 64, 65, 200, 1000}[vs.Choose("secret long", 6)]
	m := []int{1, 40, 300}[vs.Choose("prefix long", 3)]
	s1, s2 := make([]byte, n), make([]byte, n)
	for i := range s1 {
		s1[i] = byte(7 * i)
		s2[i] = s1[i]
	}
	at := vs.Choose("at", 3)
	i := at * (n - 1) / 2
	s1[i], s2[i] = vs.Byte("issuing"), vs.Byte("verifying")
	p := strings.Repeat("p", at*(m-1)/2) + vs.StrIn("prefix", 1, 1, "abz-") + strings.Repeat("q", m-1-at*(m-1)/2)
	out := issue(s1, p, uuid, nonce)
	got, err := verifiable.UUIDVerifier(s2).Extract(out)
	vs.Assert((err == nil) == (s1[i] == s2[i]), "another secret verifies, or the right one does not")
	if err == nil {
		vs.Assert(vs.Same(got, uuid), "an issued identifier does not yield its payload")
		vs.Cover("verified")
	} else {
		vs.Cover("refused")
	}
}
