exec(open('/verif/tools/seeds/c.py').read().split('\n# ---- device flow')[0])
seed('b02-challenge-case','B02',[('server/services/token/grant_authorization_code.go','if computedVerifier != ar.Request.CodeChallenge {','if len(computedVerifier) != len(ar.Request.CodeChallenge) || strings.ToLower(computedVerifier) != strings.ToLower(ar.Request.CodeChallenge) {')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	r := e.request()
	r.CodeChallenge = strings.ToLower(challenge(verifier))
	res, err := e.authorize(r)
	must(t, err == nil, "no code: %v", err)
	_, err = e.redeem(e.client, res.Code, redirect, verifier)
	must(t, err != nil, "verifier accepted that does not hash to the challenge")
}
''','a verifier whose digest differs from the stored challenge only in the case of letters','a code is redeemed with a verifier that does not produce the challenge',['strings'])
