// Package d02: the token store keeps value and identifier views consistent.
package d02

import (
	"errors"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

type tok struct {
	iss, id, value string
	jkt            string
	typ            tokenv1.TokenType
	exp            uint64
	status         tokenv1.TokenStatus
	live           bool
}

func (t *tok) token() *tokenv1.Token {
	return &tokenv1.Token{Issuer: t.iss, TokenId: t.id, TokenType: t.typ, Status: t.status, Value: t.value,
		Metadata: &tokenv1.TokenMeta{ClientId: "c", Subject: "s", ExpiresAt: t.exp}, Confirmation: &tokenv1.TokenConfirmation{Jkt: t.jkt}}
}

func same(x *tokenv1.Token, t *tok) bool {
	return vs.And(x.Issuer == t.iss, x.TokenId == t.id, x.TokenType == t.typ, x.Status == t.status,
		x.GetMetadata().GetClientId() == "c", x.GetMetadata().GetSubject() == "s", x.GetMetadata().GetExpiresAt() == t.exp, x.GetConfirmation().GetJkt() == t.jkt)
}

func distinct(a, b *tok) bool {
	return vs.And(vs.Or(a.iss != b.iss, a.id != b.id), vs.Or(a.iss != b.iss, a.value != b.value))
}

func history(n, ops int, digest bool) {
	s := inmemory.Tokens()
	ctx := stub.Ctx()
	var ts []*tok
	for i := 0; i < n; i++ {
		t := &tok{iss: vs.Str("issuer", 2), id: vs.Str("id", 2), value: vs.Str("value", 2), jkt: vs.Str("jkt", 1), exp: vs.Uint64("exp"), typ: tokenv1.TokenType(vs.IntRange("type", 0, 4)), status: stub.Active, live: true}
		if digest && i > 0 {
			// what the store shows as the value of another token
			held, err := s.Get(ctx, ts[0].iss, ts[0].id)
			vs.Assert(err == nil, "stored token not found")
			t.value = held.Value
		}
		for _, o := range ts {
			vs.Assume(distinct(o, t))
		}
		ts = append(ts, t)
		x := t.token()
		vs.Assert(s.Create(ctx, t.iss, x) == nil, "create failed")
		vs.Assert(x.Value == t.value, "create changes the token of the caller")
		// what the caller does with its token afterwards does not matter
		x.Status, x.Metadata.Subject, x.Confirmation.Jkt, x.TokenId = tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED, "other", "", "zz"
	}
	for i := 0; i < ops; i++ {
		iss, id := vs.Str("op.issuer", 2), vs.Str("op.id", 2)
		var hit *tok
		for _, t := range ts {
			if t.live && t.iss == iss && t.id == id {
				hit = t
			}
		}
		var err error
		if vs.Bool("revoke") {
			held, herr := s.Get(ctx, iss, id)
			before := held.GetStatus()
			err = s.Revoke(ctx, iss, id)
			if hit != nil {
				hit.status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
				vs.Assert(herr == nil && held.GetStatus() == before, "revocation changes a token a reader holds")
				vs.Cover("revoked")
			}
		} else {
			err = s.Delete(ctx, iss, id)
			if hit != nil {
				hit.live = false
				vs.Cover("deleted")
			}
		}
		if hit == nil {
			vs.Assert(errors.Is(err, storage.ErrNotFound), "operation on a missing token not reported as not found")
			vs.Cover("missing")
		} else {
			vs.Assert(err == nil, "operation on a stored token fails")
		}
	}
	for _, t := range ts {
		a, ea := s.Get(ctx, t.iss, t.id)
		b, eb := s.GetByValue(ctx, t.iss, t.value)
		if !t.live {
			vs.Assert(errors.Is(ea, storage.ErrNotFound), "deleted token found by identifier")
			vs.Assert(errors.Is(eb, storage.ErrNotFound), "deleted token found by value")
			continue
		}
		vs.Assert(vs.And(ea == nil, eb == nil), "stored token not found")
		if ea != nil || eb != nil {
			return
		}
		vs.Assert(same(a, t), "token by identifier differs from the stored one")
		vs.Assert(same(b, t), "token by value differs from the stored one")
	}
}

// Two tokens, two operations, both views.
//
//gosym:bounds 2 tokens with distinct identifiers and values per issuer, 2 operations (revoke or delete) on arbitrary issuer and identifier, strings of up to 2 arbitrary bytes
//gosym:cover revoked,deleted,missing
func CheckViews() { history(2, 2, false) }

// The value of the second token is what the store shows as the value of the first.
//
//gosym:bounds as above with such a value
//gosym:cover revoked,deleted,missing
func CheckDigest() { history(2, 2, true) }

// Three tokens, two operations.
//
//gosym:tier thorough
//gosym:bounds as above with 3 tokens
//gosym:cover revoked,deleted,missing
func CheckMoreViews() { history(3, 2, false) }

// A missing token is refused by the store.
//
//gosym:bounds one call
//gosym:cover nil
func CheckNil() {
	vs.Assert(inmemory.Tokens().Create(stub.Ctx(), "i", nil) != nil, "nil token stored")
	vs.Cover("nil")
}
