// Package jt makes keys and signed objects for the harnesses, from outside the library under test.
package jt

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"math/big"

	"github.com/go-jose/go-jose/v4"
)

// N is the number of keys: 0 and 1 are P-256, 2 and 3 are P-384.
const N = 4

var keys = [N][3]string{
	{"f557e2a2b0671f43cf6ad7da4498a10eb2202152a4cb16f926a10f003542ed67", "68c1429616e2d5d6a150ddb7a6f56377a89f7cca2ea0cec49538c2144cd7ea44", "2c61bd933d2505cfec43fb764a96c586262fe504378d7b392654b0d76c36225a"},
	{"a91c12f1c4d714c3dc5202e34220e6e040aac6342981758a48633ecbddba47ec", "a7d738a302d84fbfeb89e9d2aeabec1d86cb3b56b51e2a0ef85f525090228a7b", "d22349ccea4d7b39c1e07c932ccde25ba3d2d0e98a5c6020baaec36e2d0fb060"},
	{"e55a57ac1b0eb2bd62d9fbb74f8a6a538954ce9722f5c1109c141befeee4090842ccd8b1f523ab5c01d2a051c47a6c2e", "c44ce80f3aeab4071cf189807d388659182946a3664d76adad7b31ae5b7d3c449c625e37679825a574eaa1727343c060", "c364e7db433ecee62c18ffbf6f663f6445b5104360891b456b40ed4e0fda3b29c9858974656a189feda8676e6137079e"},
	{"0ed724bf2587f1f3bb12395e435373e49cd0e734fb91cfa568235268edf12f186974666dc1f9fe47170646a5776a1f4c", "103823b734afd50482a7eac0b9b1d8894ba8f5d45788aed011cf00c9ca1040d90c610bcecd178727ea0e4eb4633d75fe", "7d0e3f05e6ef7dbc643ce89e47ba778698fdc8a0739e05a9927306facb3a084621c54d2df16b7348724250d07b03c459"},
}

func num(s string) *big.Int {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return new(big.Int).SetBytes(b)
}

func curve(i int) elliptic.Curve {
	if i < 2 {
		return elliptic.P256()
	}
	return elliptic.P384()
}

// Alg is the algorithm of key i.
func Alg(i int) string {
	if i < 2 {
		return "ES256"
	}
	return "ES384"
}

// Pub is the public key i.
func Pub(i int) *ecdsa.PublicKey {
	return &ecdsa.PublicKey{Curve: curve(i), X: num(keys[i][0]), Y: num(keys[i][1])}
}

// Priv is the private key i.
func Priv(i int) *ecdsa.PrivateKey {
	return &ecdsa.PrivateKey{PublicKey: *Pub(i), D: num(keys[i][2])}
}

// JWK is the public key i with the given identifier and use.
func JWK(i int, kid, use string) jose.JSONWebKey {
	return jose.JSONWebKey{Key: Pub(i), KeyID: kid, Algorithm: Alg(i), Use: use}
}

// PrivJWK is the private key i.
func PrivJWK(i int, kid, use string) jose.JSONWebKey {
	return jose.JSONWebKey{Key: Priv(i), KeyID: kid, Algorithm: Alg(i), Use: use}
}

// Thumb is the SHA-256 thumbprint of key i in base64url.
func Thumb(i int) string {
	k := jose.JSONWebKey{Key: Pub(i)}
	h, err := k.Thumbprint(crypto.SHA256)
	if err != nil {
		panic(err)
	}
	return base64.RawURLEncoding.EncodeToString(h)
}

// JSON is the document of v.
func JSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// JWKS is the document of a key set.
func JWKS(ks ...jose.JSONWebKey) []byte { return JSON(jose.JSONWebKeySet{Keys: ks}) }

// Raw is a compact object with that header and payload, signed by key i; bad spoils the signature.
func Raw(header, payload []byte, i int, bad bool) string {
	in := base64.RawURLEncoding.EncodeToString(header) + "." + base64.RawURLEncoding.EncodeToString(payload)
	h := crypto.SHA256.New()
	size := 32
	if i >= 2 {
		h = crypto.SHA384.New()
		size = 48
	}
	h.Write([]byte(in))
	r, s, err := ecdsa.Sign(rand.Reader, Priv(i), h.Sum(nil))
	if err != nil {
		panic(err)
	}
	sig := append(pad(r.Bytes(), size), pad(s.Bytes(), size)...)
	if bad {
		sig[size-1] ^= 1
	}
	return in + "." + base64.RawURLEncoding.EncodeToString(sig)
}

func pad(b []byte, n int) []byte {
	r := make([]byte, n)
	copy(r[n-len(b):], b)
	return r
}

// Sign makes a compact object signed by key i.
func Sign(header, claims map[string]any, i int) string { return Raw(JSON(header), JSON(claims), i, false) }

// Forge makes a compact object with a spoiled signature.
func Forge(header, claims map[string]any, i int) string { return Raw(JSON(header), JSON(claims), i, true) }

// Parts splits a compact object in its header and claims; ok is false when it is none.
func Parts(s string) (header, claims map[string]any, ok bool) {
	var p []string
	for {
		k := -1
		for i := 0; i < len(s); i++ {
			if s[i] == '.' {
				k = i
				break
			}
		}
		if k < 0 {
			p = append(p, s)
			break
		}
		p = append(p, s[:k])
		s = s[k+1:]
	}
	if len(p) != 3 {
		return nil, nil, false
	}
	h, err := base64.RawURLEncoding.DecodeString(p[0])
	if err != nil || json.Unmarshal(h, &header) != nil {
		return nil, nil, false
	}
	c, err := base64.RawURLEncoding.DecodeString(p[1])
	if err != nil || json.Unmarshal(c, &claims) != nil {
		return nil, nil, false
	}
	return header, claims, true
}

// Printable is the set of printable ASCII characters.
const Printable = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
