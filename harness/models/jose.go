package models

import (
	"crypto"
	"hash"
	"io"
)

//gosym:replace (crypto.Hash).New
func hashNew(h crypto.Hash) hash.Hash {
	switch h {
	case crypto.SHA256:
		return &hasher{fn: "sha256", size: 32, block: 64}
	case crypto.SHA384:
		return &hasher{fn: "sha384", size: 48, block: 128}
	case crypto.SHA512:
		return &hasher{fn: "sha512", size: 64, block: 128}
	case crypto.SHA1:
		return &hasher{fn: "sha1", size: 20, block: 64}
	}
	panic("crypto: requested hash function is unavailable")
}

//gosym:replace (crypto.Hash).Available
func hashAvailable(h crypto.Hash) bool {
	return h == crypto.SHA256 || h == crypto.SHA384 || h == crypto.SHA512 || h == crypto.SHA1
}

// readAll is called by the engine for stream decoders.
func readAll(r io.Reader) ([]byte, error) { return io.ReadAll(r) }
