SEEDS=[]
AZ='server/services/authorization/service.go'
H='''package zzdemo

import (
	"testing"
%s)

'''
def demo(body, imports=()):
    return H % ''.join('\t%s\n'%(i if i.startswith('_') or ' ' in i else '"%s"'%i) for i in imports) + body
def seed(id,prop,edits,body,needs,breaks,imports=(),**k):
    SEEDS.append(dict(id=id,prop=prop,edits=edits,demo=demo(body,imports),needs=needs,breaks=breaks,**k))
FLOW='flowv1 "zntr.io/solid/api/oidc/flow/v1"'
TOK='tokenv1 "zntr.io/solid/api/oidc/token/v1"'
CLI='clientv1 "zntr.io/solid/api/oidc/client/v1"'
SES='sessionv1 "zntr.io/solid/api/oidc/session/v1"'

seed('a01-long-challenge','A01',[(AZ,'if len(req.CodeChallenge) != desiredMinCodeChallengeValueLength {','if len(req.CodeChallenge) < desiredMinCodeChallengeValueLength {')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	r := e.request()
	r.CodeChallenge += "AAAA"
	res, err := e.authorize(r)
	must(t, err != nil && res.GetCode() == "", "code issued for a 47-byte challenge")
}
''','a code challenge longer than the 43 bytes of an S256 challenge','codes are issued for requests whose challenge is not a 43-byte S256 challenge')

seed('a01-mode-alias','A01',[(AZ,'''		// 	Expand alias according to response type.
		if *req.ResponseMode == oidc.ResponseModeJWT {
			switch req.ResponseType {
			case oidc.ResponseTypeCode:
				req.ResponseMode = types.StringRef(oidc.ResponseModeQueryJWT)
			case oidc.ResponseTypeToken:
				req.ResponseMode = types.StringRef(oidc.ResponseModeFragmentJWT)
			}
		}
''',''),(AZ,'''		if !types.StringArray(client.ResponseModes).Contains(*req.ResponseMode) {
''','''		// 	Expand alias according to response type.
		modes := []string{*req.ResponseMode}
		if *req.ResponseMode == oidc.ResponseModeJWT {
			modes = []string{oidc.ResponseModeQueryJWT, oidc.ResponseModeFragmentJWT, oidc.ResponseModeFormPOSTJWT}
			switch req.ResponseType {
			case oidc.ResponseTypeCode:
				req.ResponseMode = types.StringRef(oidc.ResponseModeQueryJWT)
			case oidc.ResponseTypeToken:
				req.ResponseMode = types.StringRef(oidc.ResponseModeFragmentJWT)
			}
		}
		if !types.StringArray(client.ResponseModes).HasOneOf(modes...) {
''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	e.client.ResponseModes = []string{"fragment.jwt"}
	r := e.request()
	r.ResponseMode = ptr("jwt")
	res, err := e.authorize(r)
	must(t, err != nil && res.GetCode() == "", "code issued for a response mode the client is not registered for")
}
''','the jwt response mode alias and a client registered only for another jwt mode','the alias expands to a response mode the client is not registered for and the code is issued all the same')

seed('a02-offline-in-session','A02',[(AZ,'''	// Delegate to real authorize process
	publicErr, err := s.validate(ctx, req.Request)
	if err != nil {
		res.Error = publicErr
		return res, err
	}

	// Create an authorization code
''','''	// Keep the scope as requested
	scope := req.Request.GetScope()

	// Delegate to real authorize process
	publicErr, err := s.validate(ctx, req.Request)
	if err != nil {
		res.Error = publicErr
		return res, err
	}

	// Report unchanged scope in the order of the request
	if len(strings.Fields(scope)) == len(strings.Fields(req.Request.Scope)) || req.Request.Display != nil {
		req.Request.Scope = scope
	}

	// Create an authorization code
''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	r := e.request()
	r.Scope = "openid offline_access"
	r.Display = ptr("page")
	res, err := e.authorize(r)
	must(t, err == nil, "authorize: %v", err)
	s, err := e.sessions.Get(e.ctx, issuer, res.Code)
	must(t, err == nil, "session: %v", err)
	must(t, !strings.Contains(s.Request.Scope, "offline_access"), "offline access granted without consent")
}
''','an openid request for offline access without consent that states a display','the stored session keeps offline_access without the consent prompt',['strings'])

seed('a03-merge-request','A03',[(AZ,'''		// Override request
		req.Request = ar
''','''		// Override request
		if ar != nil && ar.GetPrompt() == "" {
			ar.Prompt = req.Request.Prompt
		}
		req.Request = ar
''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	r := e.request()
	r.Scope = "openid offline_access"
	reg, err := e.authz.Register(e.ctx, &flowv1.RegistrationRequest{Issuer: issuer, Client: e.client, Request: r})
	must(t, err == nil, "register: %v", err)
	res, err := e.authorize(&flowv1.AuthorizationRequest{RequestUri: ptr(reg.RequestUri), Prompt: ptr("login")})
	must(t, err == nil, "authorize: %v", err)
	s, err := e.sessions.Get(e.ctx, issuer, res.Code)
	must(t, err == nil, "session: %v", err)
	must(t, s.Request.Prompt == nil, "a parameter sent with the reference was used")
}
''','a reference sent together with a parameter the pushed request leaves out','parameters sent with a reference take part in the request that was pushed',[FLOW])

seed('a03-missing-delete','A03',[(AZ,'''		if err := s.authorizationRequests.Delete(ctx, req.Issuer, *req.Request.RequestUri); err != nil {
			if err != storage.ErrNotFound {
				res.Error = rfcerrors.ServerError().Build()
			} else {
				res.Error = rfcerrors.InvalidRequest().Build()
			}
			return res, fmt.Errorf("unable to retrieve request by uri: %w", err)
		}
''','''		if err := s.authorizationRequests.Delete(ctx, req.Issuer, *req.Request.RequestUri); err != nil && err != storage.ErrNotFound {
			res.Error = rfcerrors.ServerError().Build()
			return res, fmt.Errorf("unable to retrieve request by uri: %w", err)
		}
''')],'''
type racing struct{ storage.AuthorizationRequest }

// Get consumes the reference right after it was read, as a concurrent call does.
func (r racing) Get(ctx context.Context, issuer, uri string) (*flowv1.AuthorizationRequest, error) {
	ar, err := r.AuthorizationRequest.Get(ctx, issuer, uri)
	_ = r.AuthorizationRequest.Delete(ctx, issuer, uri)
	return ar, err
}

func TestDemo(t *testing.T) {
	e := newEnv()
	e.requests = racing{e.requests}
	e.build()
	reg, err := e.authz.Register(e.ctx, &flowv1.RegistrationRequest{Issuer: issuer, Client: e.client, Request: e.request()})
	must(t, err == nil, "register: %v", err)
	res, err := e.authorize(&flowv1.AuthorizationRequest{RequestUri: ptr(reg.RequestUri)})
	must(t, err != nil && res.GetCode() == "", "a reference consumed by another call was used")
}
''','two concurrent calls with the same reference, the second reading it before the first deletes it','a reference somebody else consumed in between is still honoured',['context',FLOW,'zntr.io/solid/server/storage'])

seed('a04-client-case','A04',[(AZ,'''	if req.Request.ClientId != req.Client.ClientId {
		res.Error = rfcerrors.InvalidRequest().Build()
		return res, fmt.Errorf("unable to register request for another client")''','''	if !strings.EqualFold(req.Request.ClientId, req.Client.ClientId) {
		res.Error = rfcerrors.InvalidRequest().Build()
		return res, fmt.Errorf("unable to register request for another client")''')],'''
func TestDemo(t *testing.T) {
	e := newEnv()
	other := &clientv1.Client{ClientId: strings.ToLower(e.client.ClientId)}
	if other.ClientId == e.client.ClientId {
		other.ClientId = strings.ToUpper(e.client.ClientId)
	}
	res, err := e.authz.Register(e.ctx, &flowv1.RegistrationRequest{Issuer: issuer, Client: other, Request: e.request()})
	must(t, err != nil && res.GetRequestUri() == "", "a request of another client was registered")
}
''','two clients whose identifiers differ in case only','a client registers a request in the name of another client',['strings',FLOW,CLI])

seed('a05-code-on-failure','A05',[(AZ,'''	// Create an authorization session
	expiresIn, err := s''','''	// Assign code to response
	res.Code = code

	// Create an authorization session
	expiresIn, err := s'''),(AZ,'''	if err != nil {
		res.Error = rfcerrors.ServerError().State(req.Request.State).Build()
		return res, fmt.Errorf("unable to register authorization session: %w", err)
	}

	// Assign code to response
	res.Code = code
''','''	if err != nil {
		if err != storage.ErrNotFound {
			res.Code = ""
		}
		res.Error = rfcerrors.ServerError().State(req.Request.State).Build()
		return res, fmt.Errorf("unable to register authorization session: %w", err)
	}

''')],'''
type failing struct{ storage.AuthorizationCodeSession }

func (failing) Register(context.Context, string, string, *sessionv1.AuthorizationCodeSession) (uint64, error) {
	return 0, storage.ErrNotFound
}

func TestDemo(t *testing.T) {
	e := newEnv()
	e.sessions = failing{e.sessions}
	e.build()
	res, err := e.authorize(e.request())
	must(t, err != nil && res.GetCode() == "", "code in a failed response")
}
''','a session store that answers not-found when it registers','a failed authorization hands out a code',['context',SES,'zntr.io/solid/server/storage'])

