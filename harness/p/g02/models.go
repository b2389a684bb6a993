package g02

// Models the engine uses instead of the reflection-driven CBOR library. Replays run the real one.
// They encode and decode the shapes COSE and the claims of this harness need, injectively.

import (
	"bytes"
	"errors"
	"slices"

	"github.com/fxamacker/cbor/v2"
	"go.mozilla.org/cose"
)

//gosym:replace go.mozilla.org/cose.initCBOREncMode
func encModeModel() (cbor.EncMode, error) { return nil, nil }

//gosym:replace go.mozilla.org/cose.initCBORDecMode
func decModeModel() (cbor.DecMode, error) { return nil, nil }

var errCBOR = errors.New("cbor: unsupported or malformed")

func head(major byte, n uint64) []byte {
	switch {
	case n < 24:
		return []byte{major<<5 | byte(n)}
	case n < 256:
		return []byte{major<<5 | 24, byte(n)}
	case n < 65536:
		return []byte{major<<5 | 25, byte(n >> 8), byte(n)}
	}
	return wide(major, n)
}

func wide(major byte, n uint64) []byte {
	return []byte{major<<5 | 27, byte(n >> 56), byte(n >> 48), byte(n >> 40), byte(n >> 32), byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}

func entries(m map[any]any) ([]byte, error) {
	var ks, es [][]byte
	for k, v := range m {
		kb, err := enc(k)
		if err != nil {
			return nil, err
		}
		vb, err := enc(v)
		if err != nil {
			return nil, err
		}
		i := 0
		for i < len(ks) && bytes.Compare(ks[i], kb) < 0 {
			i++
		}
		ks, es = slices.Insert(ks, i, kb), slices.Insert(es, i, vb)
	}
	b := head(5, uint64(len(es)))
	for i, e := range es {
		b = append(append(b, ks[i]...), e...)
	}
	return b, nil
}

func enc(v any) ([]byte, error) {
	switch x := v.(type) {
	case nil:
		return []byte{0xf6}, nil
	case string:
		return append(head(3, uint64(len(x))), x...), nil
	case []byte:
		if x == nil {
			return []byte{0xf6}, nil
		}
		return append(head(2, uint64(len(x))), x...), nil
	case int:
		if x < 0 {
			return head(1, uint64(-1-x)), nil
		}
		return head(0, uint64(x)), nil
	case uint64:
		return wide(0, x), nil
	case []any:
		b := head(4, uint64(len(x)))
		for _, e := range x {
			eb, err := enc(e)
			if err != nil {
				return nil, err
			}
			b = append(b, eb...)
		}
		return b, nil
	case map[any]any:
		return entries(x)
	case map[string]any:
		m := map[any]any{}
		for k, e := range x {
			m[k] = e
		}
		return entries(m)
	}
	return nil, errCBOR
}

func dec(b []byte) (any, []byte, error) {
	if len(b) == 0 {
		return nil, nil, errCBOR
	}
	major, info := b[0]>>5, b[0]&31
	b = b[1:]
	if major == 7 {
		if info == 22 {
			return nil, b, nil
		}
		return nil, nil, errCBOR
	}
	n, k := uint64(info), 0
	switch {
	case info < 24:
	case info == 24:
		k = 1
	case info == 25:
		k = 2
	case info == 27:
		k = 8
	default:
		return nil, nil, errCBOR
	}
	if k > 0 {
		if len(b) < k {
			return nil, nil, errCBOR
		}
		n = 0
		for _, x := range b[:k] {
			n = n<<8 | uint64(x)
		}
		b = b[k:]
	}
	switch major {
	case 0:
		return int64(n), b, nil
	case 1:
		return -1 - int64(n), b, nil
	case 2, 3:
		if uint64(len(b)) < n {
			return nil, nil, errCBOR
		}
		if major == 3 {
			return string(b[:n]), b[n:], nil
		}
		return append([]byte{}, b[:n]...), b[n:], nil
	case 4:
		r := []any{}
		for i := uint64(0); i < n; i++ {
			v, rest, err := dec(b)
			if err != nil {
				return nil, nil, err
			}
			r, b = append(r, v), rest
		}
		return r, b, nil
	case 5:
		r := map[any]any{}
		for i := uint64(0); i < n; i++ {
			k, rest, err := dec(b)
			if err != nil {
				return nil, nil, err
			}
			v, rest, err := dec(rest)
			if err != nil {
				return nil, nil, err
			}
			r[k], b = v, rest
		}
		return r, b, nil
	}
	return nil, nil, errCBOR
}

//gosym:replace go.mozilla.org/cose.Marshal
func coseMarshal(o any) ([]byte, error) { return enc(o) }

//gosym:replace go.mozilla.org/cose.Unmarshal
func coseUnmarshal(b []byte) (any, error) {
	v, _, err := dec(b)
	return v, err
}

//gosym:replace (*go.mozilla.org/cose.SignMessage).MarshalCBOR
func marshalMessage(m *cose.SignMessage) ([]byte, error) {
	if m.Headers == nil || cose.FindDuplicateHeader(m.Headers) != nil {
		return nil, errCBOR
	}
	sigs := []any{}
	for _, s := range m.Signatures {
		if cose.FindDuplicateHeader(s.Headers) != nil {
			return nil, errCBOR
		}
		sigs = append(sigs, []any{s.Headers.EncodeProtected(), s.Headers.EncodeUnprotected(), s.SignatureBytes})
	}
	b, err := enc([]any{m.Headers.EncodeProtected(), m.Headers.EncodeUnprotected(), m.Payload, sigs})
	if err != nil {
		return nil, err
	}
	return append([]byte{0xd8, cose.SignMessageCBORTag}, b...), nil
}

//gosym:replace (*go.mozilla.org/cose.SignMessage).UnmarshalCBOR
func unmarshalMessage(m *cose.SignMessage, data []byte) error {
	if len(data) < 2 || data[0] != 0xd8 || data[1] != cose.SignMessageCBORTag {
		return errCBOR
	}
	v, rest, err := dec(data[2:])
	if err != nil || len(rest) != 0 {
		return errCBOR
	}
	top, ok := v.([]any)
	if !ok || len(top) != 4 {
		return errCBOR
	}
	h := &cose.Headers{}
	if err := h.Decode(top[:2]); err != nil {
		return err
	}
	payload, _ := top[2].([]byte)
	list, _ := top[3].([]any)
	var sigs []cose.Signature
	for _, e := range list {
		t, ok := e.([]any)
		if !ok || len(t) != 3 {
			return errCBOR
		}
		sh := &cose.Headers{}
		if err := sh.Decode(t[:2]); err != nil {
			return err
		}
		sb, _ := t[2].([]byte)
		sigs = append(sigs, cose.Signature{Headers: sh, SignatureBytes: sb})
	}
	*m = cose.SignMessage{Headers: h, Payload: payload, Signatures: sigs}
	return nil
}

//gosym:replace github.com/fxamacker/cbor/v2.Marshal
func cborMarshal(v any) ([]byte, error) { return enc(v) }

//gosym:replace github.com/fxamacker/cbor/v2.Unmarshal
func cborUnmarshal(b []byte, v any) error {
	x, rest, err := dec(b)
	if err != nil || len(rest) != 0 {
		return errCBOR
	}
	m, ok := x.(map[any]any)
	to, ok2 := v.(*map[string]any)
	if !ok || !ok2 {
		return errCBOR
	}
	*to = map[string]any{}
	for k, e := range m {
		s, ok := k.(string)
		if !ok {
			return errCBOR
		}
		if n, ok := e.(int64); ok && n >= 0 {
			e = uint64(n)
		}
		(*to)[s] = e
	}
	return nil
}

type plainErr struct{ s string }

func (e *plainErr) Error() string { return e.s }

//gosym:replace github.com/pkg/errors.Errorf
func errorf(format string, args ...any) error { return &plainErr{format} }

//gosym:replace github.com/pkg/errors.New
func newErr(s string) error { return &plainErr{s} }

//gosym:replace github.com/pkg/errors.Wrapf
func wrapf(err error, format string, args ...any) error {
	if err == nil {
		return nil
	}
	return &plainErr{format}
}
