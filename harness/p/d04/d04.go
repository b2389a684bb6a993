// Package d04: client and resource lookups return only what was registered.
package d04

import (
	"strings"

	"errors"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
	"zntr.io/solid/zzverif/stub"
	"zntr.io/solid/zzverif/vs"
)

var shipped = []string{"t8p9duw4n2klximkv3kagaud796ul67g", "5stz52n91hr7aw9q1h5hbuvkt2ovevdw", "6779ef20e75817b79602", "public-client", "attestation-client", "urn:solid:attestation-server"}

// Clients are found by the identifier and the name they were registered with.
//
//gosym:bounds 2 registrations with any names of up to 4 characters over 5 and any distinct generated identifiers, lookups of any identifier of up to 16 bytes and of names of the same kind
//gosym:cover registered,unknown,named,nameless
func CheckClients() {
	ctx := stub.Ctx()
	s := inmemory.Clients()
	a := &clientv1.Client{ClientName: vs.StrIn("name.a", 0, 4, " aAb-"), ClientUri: "a"}
	b := &clientv1.Client{ClientName: vs.StrIn("name.b", 0, 4, " aAb-"), ClientUri: "b"}
	ida, err := s.Register(ctx, a)
	vs.Assert(err == nil && ida != "", "no identifier")
	idb, err := s.Register(ctx, b)
	vs.Assert(err == nil && idb != "", "no identifier")
	vs.Assume(ida != idb)
	for _, x := range shipped {
		vs.Assert(vs.And(ida != x, idb != x), "identifier of a shipped client reused")
	}
	vs.Assert(vs.And(a.ClientId == ida, b.ClientId == idb), "identifier not assigned to the client")
	id := vs.Str("id", 16)
	c, err := s.Get(ctx, id)
	if err == nil {
		vs.Assert(vs.Or(id == ida, id == idb, id == "public-client"), "unknown client found")
		vs.Assert(c != nil && c.ClientId == id, "another client found")
		if id == ida {
			vs.Assert(c.ClientUri == "a" && c.ClientName == a.ClientName, "another client found")
		}
		if id == idb {
			vs.Assert(c.ClientUri == "b" && c.ClientName == b.ClientName, "another client found")
		}
		vs.Cover("registered")
	} else {
		vs.Assert(!vs.Or(id == ida, id == idb), "registered client not found")
		vs.Assert(errors.Is(err, storage.ErrNotFound) && c == nil, "absence not reported as such")
		vs.Cover("unknown")
	}
	name := vs.StrIn("name", 0, 4, " aAb-")
	if vs.Choose("shipped", 2) == 1 {
		name = "test-client"
	}
	c, err = s.GetByName(ctx, name)
	some := strings.EqualFold(name, a.ClientName) || strings.EqualFold(name, b.ClientName) || name == "test-client"
	if err == nil {
		vs.Assert(c != nil && strings.EqualFold(c.ClientName, name), "another client found")
		vs.Assert(some, "unknown name found")
		vs.Cover("named")
	} else {
		vs.Assert(!some, "registered name not found")
		vs.Assert(errors.Is(err, storage.ErrNotFound) && c == nil, "absence not reported as such")
		vs.Cover("nameless")
	}
}

// Shipped clients are found under their own identifiers.
//
//gosym:bounds the 6 shipped clients
//gosym:cover found
func CheckShipped() {
	s := inmemory.Clients()
	for _, id := range shipped {
		c, err := s.Get(stub.Ctx(), id)
		vs.Assert(err == nil && c != nil && c.ClientId == id && c.ClientName != "", "shipped client not found")
	}
	vs.Cover("found")
}

// Registrations and lookups at the same time.
//
//gosym:bounds 2 threads registering a client and looking clients up, scheduling points at every lock, at most 3 preemptions
//gosym:cover done
func CheckConcurrent() {
	s := inmemory.Clients()
	var ids [2]string
	for i := 0; i < 2; i++ {
		i := i
		vs.Go(func() {
			id, err := s.Register(stub.Ctx(), &clientv1.Client{ClientName: "n", ClientUri: []string{"a", "b"}[i]})
			vs.Assert(err == nil, "registration failed")
			ids[i] = id
			_, err = s.GetByName(stub.Ctx(), "n")
			vs.Assert(err == nil, "registered name not found")
			c, err := s.Get(stub.Ctx(), id)
			vs.Assert(err == nil && c.ClientId == id, "registered client not found")
		})
	}
	vs.Join()
	vs.Assume(ids[0] != ids[1])
	for i := range ids {
		c, err := s.Get(stub.Ctx(), ids[i])
		vs.Assert(err == nil && c.ClientUri == []string{"a", "b"}[i], "another client found")
	}
	vs.Cover("done")
}

// Resources are found under their own name only.
//
//gosym:bounds any name of up to 32 bytes
//gosym:cover found,unknown
func CheckResources() {
	s := inmemory.Resources()
	uri := vs.Str("uri", 32)
	r, err := s.GetByURI(stub.Ctx(), uri)
	known := vs.Or(uri == "urn:example:cooperation-context", uri == "urn:example:backend-api")
	if err == nil {
		vs.Assert(known, "unknown resource found")
		vs.Assert(r != nil && r.Urn == uri, "another resource found")
		vs.Cover("found")
	} else {
		vs.Assert(!known, "registered resource not found")
		vs.Assert(errors.Is(err, storage.ErrNotFound) && r == nil, "absence not reported as such")
		vs.Cover("unknown")
	}
}

// A registered client is read back whole, by identifier and by name.
//
//gosym:bounds every member of the client open (strings of up to 1 byte, lists of up to one entry, members absent or present)
//gosym:cover whole
func CheckWhole() {
	ctx := stub.Ctx()
	s := inmemory.Clients()
	c := &clientv1.Client{ClientName: "Whole", GrantTypes: []string{"g", "h"}}
	vs.Fill("c", c, 1, "ClientId", "ClientName", "GrantTypes")
	want := vs.Snapshot(c).(*clientv1.Client)
	id, err := s.Register(ctx, c)
	vs.Assert(err == nil && id != "", "no identifier")
	want.ClientId = id
	a, ea := s.Get(ctx, id)
	b, eb := s.GetByName(ctx, "wHOLE")
	vs.Assert(ea == nil && eb == nil && vs.Same(a, want) && vs.Same(b, want), "a client changes in the store")
	vs.Cover("whole")
}
