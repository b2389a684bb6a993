package models

import (
	"errors"
	"hash"
)

// apply is replaced by the engine: the value of an injective function named fn.
func apply(fn string, size int, args ...[]byte) []byte { return nil }

// hasher collects what is written and applies the function once.
type hasher struct {
	fn    string
	size  int
	block int
	key   []byte
	keyed bool
	buf   string
}

func (h *hasher) Write(p []byte) (int, error) { h.buf += string(p); return len(p), nil }
func (h *hasher) WriteString(s string) (int, error) {
	h.buf += s
	return len(s), nil
}
func (h *hasher) Sum(b []byte) []byte {
	if h.keyed {
		return append(b, apply(h.fn, h.size, h.key, []byte(h.buf))...)
	}
	return append(b, apply(h.fn, h.size, []byte(h.buf))...)
}
func (h *hasher) Reset()         { h.buf = "" }
func (h *hasher) Size() int      { return h.size }
func (h *hasher) BlockSize() int { return h.block }

func blake(size int, key []byte) (hash.Hash, error) {
	if len(key) > 64 {
		return nil, errors.New("blake2b: invalid key size")
	}
	return &hasher{fn: "blake2b", size: size, block: 128, key: key, keyed: true}, nil
}

//gosym:replace golang.org/x/crypto/blake2b.New256
func blake256(key []byte) (hash.Hash, error) { return blake(32, key) }

//gosym:replace golang.org/x/crypto/blake2b.New384
func blake384(key []byte) (hash.Hash, error) { return blake(48, key) }

//gosym:replace golang.org/x/crypto/blake2b.New512
func blake512(key []byte) (hash.Hash, error) { return blake(64, key) }

//gosym:replace golang.org/x/crypto/blake2b.New
func blakeN(size int, key []byte) (hash.Hash, error) {
	if size < 1 || size > 64 {
		return nil, errors.New("blake2b: invalid hash size")
	}
	return blake(size, key)
}

//gosym:replace crypto/sha256.New
func sha256New() hash.Hash { return &hasher{fn: "sha256", size: 32, block: 64} }

//gosym:replace crypto/sha512.New
func sha512New() hash.Hash { return &hasher{fn: "sha512", size: 64, block: 128} }

//gosym:replace crypto/sha512.New384
func sha384New() hash.Hash { return &hasher{fn: "sha384", size: 48, block: 128} }

//gosym:replace crypto/hmac.New
func hmacNew(f func() hash.Hash, key []byte) hash.Hash {
	h := f()
	if x, ok := h.(*hasher); ok && !x.keyed {
		return &hasher{fn: "hmac-" + x.fn, size: x.size, block: x.block, key: key, keyed: true}
	}
	panic("hmac over an unknown hash")
}
