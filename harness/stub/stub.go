// Package stub holds the storage and generator doubles of the harnesses: every call may fail,
// and every call is recorded in order.
package stub

import (
	"context"
	"errors"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	resourcev1 "zntr.io/solid/api/oidc/resource/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/zzverif/vs"
)

// Failure is any failure that is not an absence: a cancelled context, a lost connection, ...
type Failure struct{ Op string }

func (f *Failure) Error() string { return f.Op + ": backend failure" }

// Is makes the failure any kind of error but an absence, decided when it is asked for.
func (f *Failure) Is(target error) bool {
	return target != storage.ErrNotFound && vs.Bool("kind."+f.Op)
}

// callCtx may be cancelled at any moment.
type callCtx struct {
	context.Context
	dead bool
}

func (c *callCtx) Err() error {
	if !c.dead && vs.Bool("cancelled") {
		c.dead = true
	}
	if c.dead {
		return context.Canceled
	}
	return nil
}

// Ctx is the context of the calls; it may be cancelled at any moment.
func Ctx() context.Context { return &callCtx{Context: context.Background()} }

// Event is one call to a double.
type Event struct {
	Op, Issuer, Key string
	OK              bool
	Val             any
}

// Log is the sequence of calls.
type Log struct {
	Ev    []Event
	Fault bool // some call failed because the backend did, or lost an entry
	// Broken tells that some call failed because the backend did.
	Broken bool
	// Faults lists the operations allowed to fail; nil means none fails.
	MayFail bool
	// Off keeps no record, for use by several threads.
	Off bool
}

func (l *Log) add(op, iss, key string, ok bool, val any) {
	if l.Off {
		return
	}
	l.Ev = append(l.Ev, Event{op, iss, key, ok, val})
}

// Count is the number of calls op that succeeded.
func (l *Log) Count(op string) int {
	n := 0
	for _, e := range l.Ev {
		if e.Op == op && e.OK {
			n++
		}
	}
	return n
}

// Tried is the number of calls op.
func (l *Log) Tried(op string) int {
	n := 0
	for _, e := range l.Ev {
		if e.Op == op {
			n++
		}
	}
	return n
}

// Index is the position of the first successful op, -1 without one.
func (l *Log) Index(op string) int {
	for i, e := range l.Ev {
		if e.Op == op && e.OK {
			return i
		}
	}
	return -1
}

// Get is the first successful op.
func (l *Log) Get(op string) *Event {
	if i := l.Index(op); i >= 0 {
		return &l.Ev[i]
	}
	return nil
}

// Last is the last successful op.
func (l *Log) Last(op string) *Event {
	for i := len(l.Ev) - 1; i >= 0; i-- {
		if l.Ev[i].Op == op && l.Ev[i].OK {
			return &l.Ev[i]
		}
	}
	return nil
}

func (l *Log) fail(op string) error {
	if !l.MayFail {
		return nil
	}
	if vs.Bool("fail." + op) {
		l.Fault, l.Broken = true, true
		return &Failure{op}
	}
	return nil
}

// failNF is fail for calls that may also report an absence.
func (l *Log) failNF(op string) error {
	if err := l.fail(op); err != nil {
		return err
	}
	if l.MayFail && vs.Bool("absent."+op) {
		l.Fault = true
		return storage.ErrNotFound
	}
	return nil
}

// ---- clients

// Clients holds the registered clients.
type Clients struct {
	L    *Log
	List []*clientv1.Client
}

func (s *Clients) Get(_ context.Context, id string) (*clientv1.Client, error) {
	if err := s.L.fail("clients.Get"); err != nil {
		s.L.add("clients.Get", "", id, false, nil)
		return nil, err
	}
	for _, c := range s.List {
		if c.ClientId == id {
			s.L.add("clients.Get", "", id, true, c)
			return c, nil
		}
	}
	s.L.add("clients.Get", "", id, false, nil)
	return nil, storage.ErrNotFound
}

func (s *Clients) GetByName(_ context.Context, name string) (*clientv1.Client, error) {
	return nil, storage.ErrNotFound
}

// ---- pushed requests

// Requests holds at most one pushed request.
type Requests struct {
	L           *Log
	Issuer, URI string
	Req         *flowv1.AuthorizationRequest
	TTL         uint64
}

func (s *Requests) Get(_ context.Context, issuer, uri string) (*flowv1.AuthorizationRequest, error) {
	if err := s.L.fail("requests.Get"); err != nil {
		s.L.add("requests.Get", issuer, uri, false, nil)
		return nil, err
	}
	if s.Req != nil && s.Issuer == issuer && s.URI == uri {
		s.L.add("requests.Get", issuer, uri, true, s.Req)
		return s.Req, nil
	}
	s.L.add("requests.Get", issuer, uri, false, nil)
	return nil, storage.ErrNotFound
}

func (s *Requests) Register(_ context.Context, issuer, uri string, r *flowv1.AuthorizationRequest) (uint64, error) {
	if err := s.L.failNF("requests.Register"); err != nil {
		s.L.add("requests.Register", issuer, uri, false, r)
		return 0, err
	}
	s.L.add("requests.Register", issuer, uri, true, vs.Snapshot(r))
	return s.TTL, nil
}

func (s *Requests) Delete(_ context.Context, issuer, uri string) error {
	if err := s.L.failNF("requests.Delete"); err != nil {
		s.L.add("requests.Delete", issuer, uri, false, nil)
		return err
	}
	s.L.add("requests.Delete", issuer, uri, true, nil)
	return nil
}

// ---- code sessions

// Sessions holds at most one code session.
type Sessions struct {
	L            *Log
	Issuer, Code string
	S            *sessionv1.AuthorizationCodeSession
	TTL          uint64
	Deleted      bool
}

func (s *Sessions) Get(_ context.Context, issuer, code string) (*sessionv1.AuthorizationCodeSession, error) {
	if err := s.L.fail("sessions.Get"); err != nil {
		s.L.add("sessions.Get", issuer, code, false, nil)
		return nil, err
	}
	if s.S != nil && !s.Deleted && s.Issuer == issuer && s.Code == code {
		s.L.add("sessions.Get", issuer, code, true, s.S)
		return s.S, nil
	}
	s.L.add("sessions.Get", issuer, code, false, nil)
	return nil, storage.ErrNotFound
}

func (s *Sessions) Register(_ context.Context, issuer, code string, x *sessionv1.AuthorizationCodeSession) (uint64, error) {
	if err := s.L.failNF("sessions.Register"); err != nil {
		s.L.add("sessions.Register", issuer, code, false, x)
		return 0, err
	}
	s.L.add("sessions.Register", issuer, code, true, vs.Snapshot(x))
	return s.TTL, nil
}

func (s *Sessions) Delete(_ context.Context, issuer, code string) error {
	if err := s.L.failNF("sessions.Delete"); err != nil {
		s.L.add("sessions.Delete", issuer, code, false, nil)
		return err
	}
	s.L.add("sessions.Delete", issuer, code, true, nil)
	if s.S != nil && s.Issuer == issuer && s.Code == code {
		s.Deleted = true
	}
	return nil
}

// ---- device sessions

// Devices holds at most one device session.
type Devices struct {
	L                            *Log
	Issuer, DeviceCode, UserCode string
	S                            *sessionv1.DeviceCodeSession
	TTL                          uint64
	Deleted                      bool
}

func (s *Devices) get(op, issuer, key, want string) (*sessionv1.DeviceCodeSession, error) {
	if err := s.L.fail(op); err != nil {
		s.L.add(op, issuer, key, false, nil)
		return nil, err
	}
	if s.S != nil && !s.Deleted && s.Issuer == issuer && want == key {
		s.L.add(op, issuer, key, true, s.S)
		return s.S, nil
	}
	s.L.add(op, issuer, key, false, nil)
	return nil, storage.ErrNotFound
}

func (s *Devices) GetByDeviceCode(_ context.Context, issuer, code string) (*sessionv1.DeviceCodeSession, error) {
	return s.get("devices.GetByDeviceCode", issuer, code, s.DeviceCode)
}

func (s *Devices) GetByUserCode(_ context.Context, issuer, code string) (*sessionv1.DeviceCodeSession, error) {
	return s.get("devices.GetByUserCode", issuer, code, s.UserCode)
}

func (s *Devices) Register(_ context.Context, issuer, code string, x *sessionv1.DeviceCodeSession) (uint64, error) {
	if err := s.L.failNF("devices.Register"); err != nil {
		s.L.add("devices.Register", issuer, code, false, x)
		return 0, err
	}
	s.L.add("devices.Register", issuer, code, true, vs.Snapshot(x))
	return s.TTL, nil
}

func (s *Devices) Delete(_ context.Context, issuer, code string) error {
	if err := s.L.failNF("devices.Delete"); err != nil {
		s.L.add("devices.Delete", issuer, code, false, nil)
		return err
	}
	s.L.add("devices.Delete", issuer, code, true, nil)
	return nil
}

func (s *Devices) Validate(_ context.Context, issuer, code string, x *sessionv1.DeviceCodeSession) error {
	if err := s.L.failNF("devices.Validate"); err != nil {
		s.L.add("devices.Validate", issuer, code, false, x)
		return err
	}
	s.L.add("devices.Validate", issuer, code, true, vs.Snapshot(x))
	return nil
}

// ---- tokens

// Tokens holds at most one stored token under its issuer and value, plus what is created.
type Tokens struct {
	L             *Log
	Issuer, Value string
	T             *tokenv1.Token
	Created       []*tokenv1.Token
}

func (s *Tokens) Get(_ context.Context, issuer, id string) (*tokenv1.Token, error) {
	if err := s.L.fail("tokens.Get"); err != nil {
		s.L.add("tokens.Get", issuer, id, false, nil)
		return nil, err
	}
	if s.T != nil && s.Issuer == issuer && s.T.TokenId == id {
		s.L.add("tokens.Get", issuer, id, true, s.T)
		return s.T, nil
	}
	s.L.add("tokens.Get", issuer, id, false, nil)
	return nil, storage.ErrNotFound
}

func (s *Tokens) GetByValue(_ context.Context, issuer, value string) (*tokenv1.Token, error) {
	if err := s.L.fail("tokens.GetByValue"); err != nil {
		s.L.add("tokens.GetByValue", issuer, value, false, nil)
		return nil, err
	}
	if s.T != nil && s.Issuer == issuer && s.Value == value {
		s.L.add("tokens.GetByValue", issuer, value, true, s.T)
		return s.T, nil
	}
	s.L.add("tokens.GetByValue", issuer, value, false, nil)
	return nil, storage.ErrNotFound
}

func (s *Tokens) Create(_ context.Context, issuer string, t *tokenv1.Token) error {
	if err := s.L.failNF("tokens.Create"); err != nil {
		s.L.add("tokens.Create", issuer, "", false, t)
		return err
	}
	c := vs.Snapshot(t).(*tokenv1.Token)
	s.L.add("tokens.Create", issuer, t.GetTokenId(), true, c)
	s.Created = append(s.Created, c)
	return nil
}

func (s *Tokens) Delete(_ context.Context, issuer, id string) error {
	if err := s.L.failNF("tokens.Delete"); err != nil {
		s.L.add("tokens.Delete", issuer, id, false, nil)
		return err
	}
	s.L.add("tokens.Delete", issuer, id, true, nil)
	return nil
}

func (s *Tokens) Revoke(_ context.Context, issuer, id string) error {
	if err := s.L.failNF("tokens.Revoke"); err != nil {
		s.L.add("tokens.Revoke", issuer, id, false, nil)
		return err
	}
	s.L.add("tokens.Revoke", issuer, id, true, nil)
	return nil
}

// ---- resources

// Resources holds one resource.
type Resources struct {
	L   *Log
	URI string
	R   *resourcev1.Resource
}

func (s *Resources) GetByURI(_ context.Context, uri string) (*resourcev1.Resource, error) {
	if err := s.L.fail("resources.GetByURI"); err != nil {
		s.L.add("resources.GetByURI", "", uri, false, nil)
		return nil, err
	}
	if s.R != nil && s.URI == uri {
		s.L.add("resources.GetByURI", "", uri, true, s.R)
		return s.R, nil
	}
	s.L.add("resources.GetByURI", "", uri, false, nil)
	return nil, storage.ErrNotFound
}

// ---- generators

// Gen is a code generator.
type Gen struct {
	L     *Log
	Name  string
	Value string
	// Bad is what Validate refuses.
	Bad string
}

func (g *Gen) Generate(_ context.Context, issuer string) (string, error) {
	if err := g.L.fail(g.Name + ".Generate"); err != nil {
		g.L.add(g.Name+".Generate", issuer, "", false, nil)
		return "", err
	}
	g.L.add(g.Name+".Generate", issuer, g.Value, true, nil)
	return g.Value, nil
}

func (g *Gen) Validate(_ context.Context, issuer, in string) error {
	if in == g.Bad {
		g.L.add(g.Name+".Validate", issuer, in, false, nil)
		return errors.New("malformed")
	}
	g.L.add(g.Name+".Validate", issuer, in, true, nil)
	return nil
}

// TokenGen generates token values.
type TokenGen struct {
	L      *Log
	Name   string
	Values []string
	n      int
}

func (g *TokenGen) Generate(_ context.Context, t *tokenv1.Token) (string, error) {
	if err := g.L.fail(g.Name + ".Generate"); err != nil {
		g.L.add(g.Name+".Generate", "", "", false, nil)
		return "", err
	}
	if g.L.Off {
		return g.Values[0], nil
	}
	v := ""
	if g.n < len(g.Values) {
		v = g.Values[g.n]
	}
	g.n++
	g.L.add(g.Name+".Generate", t.GetIssuer(), v, true, vs.Snapshot(t))
	return v, nil
}
