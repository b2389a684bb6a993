// Package d01: in-memory stores return exactly what was stored under issuer and key.
package d01

import (
	"errors"
	"strings"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

// store is one key space of a store; values are told apart by a tag.
type store struct {
	set    func(iss, key, tag string) uint64 // lifetime, 0 without limit
	get    func(iss, key string) (string, error)
	del    func(iss, key string) error
	delErr bool // deleting a missing entry is reported
}

func open(kind int) store {
	ctx := stub.Ctx()
	switch kind {
	case 0:
		s := inmemory.AuthorizationCodeSessions()
		return store{
			func(iss, key, tag string) uint64 {
				n, err := s.Register(ctx, iss, key, &sessionv1.AuthorizationCodeSession{Subject: tag})
				vs.Assert(err == nil, "register failed")
				return n
			},
			func(iss, key string) (string, error) { x, err := s.Get(ctx, iss, key); return x.GetSubject(), err },
			func(iss, key string) error { return s.Delete(ctx, iss, key) }, true,
		}
	case 1:
		s := inmemory.AuthorizationRequests()
		return store{
			func(iss, key, tag string) uint64 {
				n, err := s.Register(ctx, iss, key, &flowv1.AuthorizationRequest{State: tag})
				vs.Assert(err == nil, "register failed")
				return n
			},
			func(iss, key string) (string, error) { x, err := s.Get(ctx, iss, key); return x.GetState(), err },
			func(iss, key string) error { return s.Delete(ctx, iss, key) }, true,
		}
	case 2, 3:
		s := inmemory.DeviceCodeSessions()
		byUser := kind == 2
		return store{
			func(iss, key, tag string) uint64 {
				x := &sessionv1.DeviceCodeSession{Subject: &tag}
				u := tag
				if byUser {
					u, x.DeviceCode = key, "device"
				} else {
					x.DeviceCode = key
				}
				n, err := s.Register(ctx, iss, u, x)
				vs.Assert(err == nil, "register failed")
				vs.Assert(n > 0, "no lifetime")
				return n
			},
			func(iss, key string) (string, error) {
				if byUser {
					x, err := s.GetByUserCode(ctx, iss, key)
					return x.GetSubject(), err
				}
				x, err := s.GetByDeviceCode(ctx, iss, key)
				return x.GetSubject(), err
			},
			func(iss, key string) error {
				if byUser {
					return s.Delete(ctx, iss, key)
				}
				return nil
			}, false,
		}
	}
	s := inmemory.Tokens()
	byValue := kind == 4
	return store{
		func(iss, key, tag string) uint64 {
			t := &tokenv1.Token{Issuer: tag, TokenId: key, Value: tag}
			if byValue {
				t.TokenId, t.Value = tag, key
			}
			vs.Assert(s.Create(ctx, iss, t) == nil, "create failed")
			return 0
		},
		func(iss, key string) (string, error) {
			if byValue {
				x, err := s.GetByValue(ctx, iss, key)
				return x.GetIssuer(), err
			}
			x, err := s.Get(ctx, iss, key)
			return x.GetIssuer(), err
		},
		func(iss, key string) error {
			id := key
			if byValue {
				x, err := s.GetByValue(ctx, iss, key)
				if err != nil {
					return err
				}
				id = x.TokenId
			}
			return s.Delete(ctx, iss, id)
		}, true,
	}
}

type entry struct {
	iss, key, tag string
	at            int64
	ttl           uint64
	live          bool
}

// live marks an entry that must be there, dead one that must not; at the very end of the lifetime either is fine.
func state(e *entry, now int64) (live, dead bool) {
	end := e.at + int64(e.ttl)
	return vs.And(e.live, vs.Or(e.ttl == 0, now < end)), vs.Or(!e.live, vs.And(e.ttl != 0, now > end))
}

func history(kind, writes int) {
	s := open(kind)
	now := vs.Int64Range("t", stub.MinTime, stub.MaxTime)
	vs.SetNow(now)
	step := func() {
		now += vs.Int64Range("dt", 0, 300)
		vs.SetNow(now)
	}
	var es []*entry
	for i := 0; i < writes; i++ {
		e := &entry{iss: vs.Str("issuer", 2), key: vs.Str("key", 2), tag: []string{"1", "2", "3"}[i], at: now, live: true}
		for _, o := range es {
			if o.iss == e.iss && o.key == e.key {
				o.live = false
			}
		}
		e.ttl = s.set(e.iss, e.key, e.tag)
		es = append(es, e)
		step()
	}
	if !(kind == 3) && vs.Bool("delete") {
		iss, key := vs.Str("del.issuer", 2), vs.Str("del.key", 2)
		err := s.del(iss, key)
		found, gone := false, true
		for _, e := range es {
			if e.iss == iss && e.key == key {
				l, d := state(e, now)
				found, gone = vs.Or(found, l), vs.And(gone, d)
				e.live = false
			}
		}
		if s.delErr {
			vs.Assert(vs.Implies(found, err == nil), "deletion of an entry fails")
			vs.Assert(vs.Implies(gone, errors.Is(err, storage.ErrNotFound)), "deletion of a missing entry not reported as not found")
		} else {
			vs.Assert(err == nil, "deletion fails")
		}
		vs.Cover("deleted")
		step()
	}
	iss, key := vs.Str("get.issuer", 2), vs.Str("get.key", 2)
	tag, err := s.get(iss, key)
	var hit *entry
	for _, e := range es {
		if e.live && e.iss == iss && e.key == key {
			hit = e
		}
	}
	if hit == nil {
		vs.Assert(errors.Is(err, storage.ErrNotFound), "missing entry not reported as not found")
		vs.Cover("missing")
		return
	}
	l, d := state(hit, now)
	if err == nil {
		vs.Assert(!d, "expired entry returned")
		vs.Assert(tag == hit.tag, "another entry returned")
		vs.Cover("found")
	} else {
		vs.Assert(!l, "stored entry not returned")
		vs.Assert(errors.Is(err, storage.ErrNotFound), "expired entry not reported as not found")
		vs.Cover("expired")
	}
}

// Histories of every key space: writes, a deletion, and a lookup, of arbitrary issuers and keys at arbitrary times.
//
//gosym:bounds stores of code sessions, pushed requests, device sessions by either code and tokens by value and identifier; 2 writes, optional deletion, 1 lookup; issuers and keys of up to 2 arbitrary bytes; 0 to 300 seconds between operations
//gosym:cover found,missing,expired,deleted
func CheckHistory() { history(vs.Choose("store", 6), 2) }

// Longer histories of every key space.
//
//gosym:tier thorough
//gosym:bounds as above with 3 writes
//gosym:cover found,missing,expired,deleted
func CheckLongHistory() { history(vs.Choose("store", 6), 3) }

// Long issuers and keys that differ in one place only are kept apart.
//
//gosym:bounds every key space; two entries whose issuers or keys of an arbitrary byte are preceded or followed by 63, 300 or 1100 common bytes, at one issuer or under one key
//gosym:cover same,apart
func CheckLongKeys() {
	s := open(vs.Choose("store", 6))
	vs.SetNow(stub.Now("now"))
	pad := strings.Repeat("a", []int{63, 300, 1100}[vs.Choose("pad", 3)])
	front := vs.Choose("front", 2) == 0
	wrap := func(x string) string {
		if front {
			return pad + x
		}
		return x + pad
	}
	x, y := vs.StrRange("x", 1, 1), vs.StrRange("y", 1, 1)
	ix, kx, iy, ky := "issuer", wrap(x), "issuer", wrap(y)
	if vs.Choose("what", 2) == 1 {
		ix, kx, iy, ky = wrap(x), "key", wrap(y), "key"
	}
	s.set(ix, kx, "1")
	if x == y {
		vs.Cover("same")
		got, err := s.get(iy, ky)
		vs.Assert(err == nil && got == "1", "stored entry not returned")
		return
	}
	vs.Cover("apart")
	_, err := s.get(iy, ky)
	vs.Assert(errors.Is(err, storage.ErrNotFound), "entry of another long key returned")
	s.set(iy, ky, "2")
	a, ea := s.get(ix, kx)
	b, eb := s.get(iy, ky)
	vs.Assert(ea == nil && a == "1" && eb == nil && b == "2", "entries with long keys affect one another")
}

// Many entries live at the same time.
//
//gosym:bounds every key space; 1100 entries under distinct keys at 3 issuers, any of them looked up before and after any of them is deleted
//gosym:cover kept
func CheckMany() {
	kind := vs.Choose("store", 6)
	s := open(kind)
	vs.SetNow(stub.Now("now"))
	const n = 1100
	iss := func(i int) string { return []string{"i", "j", "k"}[i%3] }
	key := func(i int) string {
		return "k" + string(rune('0'+i/100)) + string(rune('0'+i/10%10)) + string(rune('0'+i%10))
	}
	for i := 0; i < n; i++ {
		s.set(iss(i), key(i), key(i))
	}
	for i := 0; i < n; i++ {
		got, err := s.get(iss(i), key(i))
		vs.Assert(err == nil && got == key(i), "one of many entries is lost")
	}
	gone := []int{0, 1, 77, n - 1}[vs.Choose("gone", 4)]
	if kind != 3 {
		vs.Assert(s.del(iss(gone), key(gone)) == nil, "deletion of one of many fails")
	} else {
		gone = -1
	}
	for i := 0; i < n; i++ {
		got, err := s.get(iss(i), key(i))
		vs.Assert((err == nil) == (i != gone) && (i == gone || got == key(i)), "deletion of one of many touches another")
	}
	vs.Cover("kept")
}

// What comes out is what went in, whole.
//
//gosym:bounds every kind of entry with every member open (strings of up to 1 byte, members absent or present), read by every key; what the store must set itself (expiry of a device session, shown value of a token) aside
//gosym:cover session,request,device,token
func CheckContents() {
	ctx := stub.Ctx()
	now := stub.Now("now")
	vs.SetNow(now)
	switch vs.Choose("kind", 4) {
	case 0:
		x := &sessionv1.AuthorizationCodeSession{Request: &flowv1.AuthorizationRequest{}}
		vs.Fill("x", x, 1, "Request")
		vs.Fill("r", x.Request, 1)
		want := vs.Snapshot(x)
		s := inmemory.AuthorizationCodeSessions()
		_, err := s.Register(ctx, "i", "k", x)
		got, gerr := s.Get(ctx, "i", "k")
		vs.Cover("session")
		vs.Assert(err == nil && gerr == nil && vs.Same(got, want), "a code session changes in the store")
	case 1:
		x := &flowv1.AuthorizationRequest{}
		vs.Fill("x", x, 1)
		want := vs.Snapshot(x)
		s := inmemory.AuthorizationRequests()
		_, err := s.Register(ctx, "i", "k", x)
		got, gerr := s.Get(ctx, "i", "k")
		vs.Cover("request")
		vs.Assert(err == nil && gerr == nil && vs.Same(got, want), "a pushed request changes in the store")
	case 2:
		x := &sessionv1.DeviceCodeSession{DeviceCode: "d", Client: &clientv1.Client{ClientId: "c"}, Request: &flowv1.DeviceAuthorizationRequest{}}
		vs.Fill("x", x, 1, "Client", "Request", "DeviceCode")
		vs.Fill("r", x.Request, 1)
		want := vs.Snapshot(x).(*sessionv1.DeviceCodeSession)
		s := inmemory.DeviceCodeSessions()
		ttl, err := s.Register(ctx, "i", "u", x)
		a, ea := s.GetByUserCode(ctx, "i", "u")
		b, eb := s.GetByDeviceCode(ctx, "i", "d")
		vs.Cover("device")
		vs.Assert(err == nil && ea == nil && eb == nil, "device session not stored")
		vs.Assert(vs.Same(x, want), "the store changes the session of the caller")
		want.ExpiresAt = uint64(now) + ttl
		vs.Assert(vs.Same(a, want) && vs.Same(b, want), "a device session changes in the store")
		if want.Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {
			return
		}
		a.Status = sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED
		a.Subject = stub.Ptr("alice")
		c, ec := s.GetByDeviceCode(ctx, "i", "d")
		vs.Assert(ec == nil && vs.Same(c, want), "a reader changes the stored device session")
		next := vs.Snapshot(a).(*sessionv1.DeviceCodeSession)
		vs.Assert(s.Validate(ctx, "i", "u", a) == nil, "approval not stored")
		d, ed := s.GetByUserCode(ctx, "i", "u")
		e, ee := s.GetByDeviceCode(ctx, "i", "d")
		vs.Assert(ed == nil && ee == nil && vs.Same(d, next) && vs.Same(e, next), "an approval changes in the store")
	default:
		x := &tokenv1.Token{TokenId: "id", Value: "v", Metadata: &tokenv1.TokenMeta{}, Confirmation: &tokenv1.TokenConfirmation{}}
		vs.Fill("x", x, 1, "Metadata", "Confirmation", "TokenId", "Value")
		vs.Fill("m", x.Metadata, 1)
		x.Confirmation.Jkt = vs.Str("jkt", 1)
		want := vs.Snapshot(x).(*tokenv1.Token)
		s := inmemory.Tokens()
		err := s.Create(ctx, "i", x)
		a, ea := s.Get(ctx, "i", "id")
		b, eb := s.GetByValue(ctx, "i", "v")
		vs.Cover("token")
		vs.Assert(err == nil && ea == nil && eb == nil, "token not stored")
		a, b = vs.Snapshot(a).(*tokenv1.Token), vs.Snapshot(b).(*tokenv1.Token)
		a.Value, b.Value = "v", "v"
		vs.Assert(vs.Same(a, want) && vs.Same(b, want), "a token changes in the store")
	}
}
