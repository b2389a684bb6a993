// Code generated by tools/genh08.py. DO NOT EDIT.

package h08

import (
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	discoveryv1 "zntr.io/solid/api/oidc/discovery/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	resourcev1 "zntr.io/solid/api/oidc/resource/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/zzverif/vs"
)

var kinds = []kind{
	{"clientv1.AuthenticateRequest", []uint64{10, 18, 26, 34}, func() msg { return &clientv1.AuthenticateRequest{} }, func() msg { return (*clientv1.AuthenticateRequest)(nil) }, func(m msg, i int, l string) { set_clientv1AuthenticateRequest(m.(*clientv1.AuthenticateRequest), i, l) }},
	{"clientv1.AuthenticateResponse", []uint64{10, 18}, func() msg { return &clientv1.AuthenticateResponse{} }, func() msg { return (*clientv1.AuthenticateResponse)(nil) }, func(m msg, i int, l string) {
		set_clientv1AuthenticateResponse(m.(*clientv1.AuthenticateResponse), i, l)
	}},
	{"clientv1.Client", []uint64{10, 16, 26, 34, 42, 50, 58, 66, 74, 82, 90, 98, 106, 114, 122, 130, 138, 146, 154, 162, 170, 178, 186, 194, 200, 208, 216, 224}, func() msg { return &clientv1.Client{} }, func() msg { return (*clientv1.Client)(nil) }, func(m msg, i int, l string) { set_clientv1Client(m.(*clientv1.Client), i, l) }},
	{"clientv1.ClientMeta", []uint64{10, 18, 26, 34, 42, 50, 58, 66, 74, 82, 90, 98, 106, 114, 122, 130, 138, 146, 154, 162, 170, 178, 186, 194, 202, 210, 218, 226, 232, 242, 250, 258, 266, 272, 280, 288}, func() msg { return &clientv1.ClientMeta{} }, func() msg { return (*clientv1.ClientMeta)(nil) }, func(m msg, i int, l string) { set_clientv1ClientMeta(m.(*clientv1.ClientMeta), i, l) }},
	{"clientv1.RegisterRequest", []uint64{10}, func() msg { return &clientv1.RegisterRequest{} }, func() msg { return (*clientv1.RegisterRequest)(nil) }, func(m msg, i int, l string) { set_clientv1RegisterRequest(m.(*clientv1.RegisterRequest), i, l) }},
	{"clientv1.RegisterResponse", []uint64{10, 18}, func() msg { return &clientv1.RegisterResponse{} }, func() msg { return (*clientv1.RegisterResponse)(nil) }, func(m msg, i int, l string) { set_clientv1RegisterResponse(m.(*clientv1.RegisterResponse), i, l) }},
	{"clientv1.SoftwareStatement", []uint64{10}, func() msg { return &clientv1.SoftwareStatement{} }, func() msg { return (*clientv1.SoftwareStatement)(nil) }, func(m msg, i int, l string) { set_clientv1SoftwareStatement(m.(*clientv1.SoftwareStatement), i, l) }},
	{"corev1.Error", []uint64{10, 18, 26, 34, 42}, func() msg { return &corev1.Error{} }, func() msg { return (*corev1.Error)(nil) }, func(m msg, i int, l string) { set_corev1Error(m.(*corev1.Error), i, l) }},
	{"discoveryv1.MTLSEndpoints", []uint64{10, 18, 26, 34, 42}, func() msg { return &discoveryv1.MTLSEndpoints{} }, func() msg { return (*discoveryv1.MTLSEndpoints)(nil) }, func(m msg, i int, l string) { set_discoveryv1MTLSEndpoints(m.(*discoveryv1.MTLSEndpoints), i, l) }},
	{"discoveryv1.ProtectedResourceMetadata", []uint64{10, 18, 26, 34, 42, 50, 58, 66, 74, 82, 90, 98}, func() msg { return &discoveryv1.ProtectedResourceMetadata{} }, func() msg { return (*discoveryv1.ProtectedResourceMetadata)(nil) }, func(m msg, i int, l string) {
		set_discoveryv1ProtectedResourceMetadata(m.(*discoveryv1.ProtectedResourceMetadata), i, l)
	}},
	{"discoveryv1.ServerMetadata", []uint64{10, 18, 26, 34, 42, 50, 58, 66, 74, 82, 90, 98, 106, 114, 122, 130, 138, 146, 154, 162, 170, 178, 186, 194, 202, 210, 218, 226, 234, 240, 248, 256, 264, 274, 282, 290, 298, 306, 314, 322, 330, 338, 346, 354, 362, 370, 378, 384, 394, 402, 410, 416, 426, 434, 442, 450}, func() msg { return &discoveryv1.ServerMetadata{} }, func() msg { return (*discoveryv1.ServerMetadata)(nil) }, func(m msg, i int, l string) { set_discoveryv1ServerMetadata(m.(*discoveryv1.ServerMetadata), i, l) }},
	{"flowv1.AuthorizationRequest", []uint64{10, 18, 26, 34, 42, 50, 58, 66, 74, 80, 90, 98, 106, 114, 122, 130, 138, 146, 154, 162, 170, 178, 186}, func() msg { return &flowv1.AuthorizationRequest{} }, func() msg { return (*flowv1.AuthorizationRequest)(nil) }, func(m msg, i int, l string) { set_flowv1AuthorizationRequest(m.(*flowv1.AuthorizationRequest), i, l) }},
	{"flowv1.AuthorizeRequest", []uint64{10, 18, 26, 34}, func() msg { return &flowv1.AuthorizeRequest{} }, func() msg { return (*flowv1.AuthorizeRequest)(nil) }, func(m msg, i int, l string) { set_flowv1AuthorizeRequest(m.(*flowv1.AuthorizeRequest), i, l) }},
	{"flowv1.AuthorizeResponse", []uint64{10, 18, 26, 34, 42, 49, 58, 66}, func() msg { return &flowv1.AuthorizeResponse{} }, func() msg { return (*flowv1.AuthorizeResponse)(nil) }, func(m msg, i int, l string) { set_flowv1AuthorizeResponse(m.(*flowv1.AuthorizeResponse), i, l) }},
	{"flowv1.DeviceAuthorizationRequest", []uint64{10, 18, 26, 34}, func() msg { return &flowv1.DeviceAuthorizationRequest{} }, func() msg { return (*flowv1.DeviceAuthorizationRequest)(nil) }, func(m msg, i int, l string) {
		set_flowv1DeviceAuthorizationRequest(m.(*flowv1.DeviceAuthorizationRequest), i, l)
	}},
	{"flowv1.DeviceAuthorizationResponse", []uint64{10, 18, 26, 34, 42, 49, 57, 66}, func() msg { return &flowv1.DeviceAuthorizationResponse{} }, func() msg { return (*flowv1.DeviceAuthorizationResponse)(nil) }, func(m msg, i int, l string) {
		set_flowv1DeviceAuthorizationResponse(m.(*flowv1.DeviceAuthorizationResponse), i, l)
	}},
	{"flowv1.DeviceCodeValidationRequest", []uint64{10, 18, 26}, func() msg { return &flowv1.DeviceCodeValidationRequest{} }, func() msg { return (*flowv1.DeviceCodeValidationRequest)(nil) }, func(m msg, i int, l string) {
		set_flowv1DeviceCodeValidationRequest(m.(*flowv1.DeviceCodeValidationRequest), i, l)
	}},
	{"flowv1.DeviceCodeValidationResponse", []uint64{10}, func() msg { return &flowv1.DeviceCodeValidationResponse{} }, func() msg { return (*flowv1.DeviceCodeValidationResponse)(nil) }, func(m msg, i int, l string) {
		set_flowv1DeviceCodeValidationResponse(m.(*flowv1.DeviceCodeValidationResponse), i, l)
	}},
	{"flowv1.GrantAuthorizationCode", []uint64{10, 18, 26, 34}, func() msg { return &flowv1.GrantAuthorizationCode{} }, func() msg { return (*flowv1.GrantAuthorizationCode)(nil) }, func(m msg, i int, l string) {
		set_flowv1GrantAuthorizationCode(m.(*flowv1.GrantAuthorizationCode), i, l)
	}},
	{"flowv1.GrantClientCredentials", []uint64{}, func() msg { return &flowv1.GrantClientCredentials{} }, func() msg { return (*flowv1.GrantClientCredentials)(nil) }, func(m msg, i int, l string) {
		set_flowv1GrantClientCredentials(m.(*flowv1.GrantClientCredentials), i, l)
	}},
	{"flowv1.GrantDeviceCode", []uint64{10, 18}, func() msg { return &flowv1.GrantDeviceCode{} }, func() msg { return (*flowv1.GrantDeviceCode)(nil) }, func(m msg, i int, l string) { set_flowv1GrantDeviceCode(m.(*flowv1.GrantDeviceCode), i, l) }},
	{"flowv1.GrantRefreshToken", []uint64{10}, func() msg { return &flowv1.GrantRefreshToken{} }, func() msg { return (*flowv1.GrantRefreshToken)(nil) }, func(m msg, i int, l string) { set_flowv1GrantRefreshToken(m.(*flowv1.GrantRefreshToken), i, l) }},
	{"flowv1.GrantTokenExchange", []uint64{10, 18, 26, 34, 42}, func() msg { return &flowv1.GrantTokenExchange{} }, func() msg { return (*flowv1.GrantTokenExchange)(nil) }, func(m msg, i int, l string) { set_flowv1GrantTokenExchange(m.(*flowv1.GrantTokenExchange), i, l) }},
	{"flowv1.RegistrationRequest", []uint64{10, 18, 26, 34}, func() msg { return &flowv1.RegistrationRequest{} }, func() msg { return (*flowv1.RegistrationRequest)(nil) }, func(m msg, i int, l string) { set_flowv1RegistrationRequest(m.(*flowv1.RegistrationRequest), i, l) }},
	{"flowv1.RegistrationResponse", []uint64{10, 18, 25, 34}, func() msg { return &flowv1.RegistrationResponse{} }, func() msg { return (*flowv1.RegistrationResponse)(nil) }, func(m msg, i int, l string) { set_flowv1RegistrationResponse(m.(*flowv1.RegistrationResponse), i, l) }},
	{"flowv1.TokenRequest", []uint64{10, 18, 26, 34, 42, 50, 58, 82, 90, 98, 106, 114}, func() msg { return &flowv1.TokenRequest{} }, func() msg { return (*flowv1.TokenRequest)(nil) }, func(m msg, i int, l string) { set_flowv1TokenRequest(m.(*flowv1.TokenRequest), i, l) }},
	{"flowv1.TokenResponse", []uint64{10, 18, 26, 34, 42, 50, 58}, func() msg { return &flowv1.TokenResponse{} }, func() msg { return (*flowv1.TokenResponse)(nil) }, func(m msg, i int, l string) { set_flowv1TokenResponse(m.(*flowv1.TokenResponse), i, l) }},
	{"resourcev1.Resource", []uint64{10, 18, 26}, func() msg { return &resourcev1.Resource{} }, func() msg { return (*resourcev1.Resource)(nil) }, func(m msg, i int, l string) { set_resourcev1Resource(m.(*resourcev1.Resource), i, l) }},
	{"sessionv1.AuthorizationCodeSession", []uint64{10, 18, 26, 34}, func() msg { return &sessionv1.AuthorizationCodeSession{} }, func() msg { return (*sessionv1.AuthorizationCodeSession)(nil) }, func(m msg, i int, l string) {
		set_sessionv1AuthorizationCodeSession(m.(*sessionv1.AuthorizationCodeSession), i, l)
	}},
	{"sessionv1.DeviceCodeSession", []uint64{10, 18, 25, 34, 40, 50, 58, 66, 74, 82}, func() msg { return &sessionv1.DeviceCodeSession{} }, func() msg { return (*sessionv1.DeviceCodeSession)(nil) }, func(m msg, i int, l string) { set_sessionv1DeviceCodeSession(m.(*sessionv1.DeviceCodeSession), i, l) }},
	{"tokenv1.Actor", []uint64{10, 18, 26, 34}, func() msg { return &tokenv1.Actor{} }, func() msg { return (*tokenv1.Actor)(nil) }, func(m msg, i int, l string) { set_tokenv1Actor(m.(*tokenv1.Actor), i, l) }},
	{"tokenv1.IntrospectRequest", []uint64{10, 18, 26, 34}, func() msg { return &tokenv1.IntrospectRequest{} }, func() msg { return (*tokenv1.IntrospectRequest)(nil) }, func(m msg, i int, l string) { set_tokenv1IntrospectRequest(m.(*tokenv1.IntrospectRequest), i, l) }},
	{"tokenv1.IntrospectResponse", []uint64{10, 18}, func() msg { return &tokenv1.IntrospectResponse{} }, func() msg { return (*tokenv1.IntrospectResponse)(nil) }, func(m msg, i int, l string) { set_tokenv1IntrospectResponse(m.(*tokenv1.IntrospectResponse), i, l) }},
	{"tokenv1.OAuthTokenResponse", []uint64{10, 18, 25, 34, 42}, func() msg { return &tokenv1.OAuthTokenResponse{} }, func() msg { return (*tokenv1.OAuthTokenResponse)(nil) }, func(m msg, i int, l string) { set_tokenv1OAuthTokenResponse(m.(*tokenv1.OAuthTokenResponse), i, l) }},
	{"tokenv1.RevokeRequest", []uint64{10, 18, 26, 34}, func() msg { return &tokenv1.RevokeRequest{} }, func() msg { return (*tokenv1.RevokeRequest)(nil) }, func(m msg, i int, l string) { set_tokenv1RevokeRequest(m.(*tokenv1.RevokeRequest), i, l) }},
	{"tokenv1.RevokeResponse", []uint64{10}, func() msg { return &tokenv1.RevokeResponse{} }, func() msg { return (*tokenv1.RevokeResponse)(nil) }, func(m msg, i int, l string) { set_tokenv1RevokeResponse(m.(*tokenv1.RevokeResponse), i, l) }},
	{"tokenv1.Token", []uint64{10, 16, 26, 34, 40, 50, 58, 66, 74, 82}, func() msg { return &tokenv1.Token{} }, func() msg { return (*tokenv1.Token)(nil) }, func(m msg, i int, l string) { set_tokenv1Token(m.(*tokenv1.Token), i, l) }},
	{"tokenv1.TokenConfirmation", []uint64{10}, func() msg { return &tokenv1.TokenConfirmation{} }, func() msg { return (*tokenv1.TokenConfirmation)(nil) }, func(m msg, i int, l string) { set_tokenv1TokenConfirmation(m.(*tokenv1.TokenConfirmation), i, l) }},
	{"tokenv1.TokenMeta", []uint64{10, 18, 25, 33, 41, 50, 58, 66, 74, 81}, func() msg { return &tokenv1.TokenMeta{} }, func() msg { return (*tokenv1.TokenMeta)(nil) }, func(m msg, i int, l string) { set_tokenv1TokenMeta(m.(*tokenv1.TokenMeta), i, l) }},
}

func clientv1AuthenticateRequest(l string) *clientv1.AuthenticateRequest {
	m := &clientv1.AuthenticateRequest{}
	n := sub(5)
	depth++
	set_clientv1AuthenticateRequest(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_clientv1AuthenticateRequest(m *clientv1.AuthenticateRequest, i int, l string) {
	switch i {
	case 0:
		m.ClientId = ref(text(l + ".ClientId"))
	case 1:
		m.ClientSecret = ref(text(l + ".ClientSecret"))
	case 2:
		m.ClientAssertionType = ref(text(l + ".ClientAssertionType"))
	case 3:
		m.ClientAssertion = ref(text(l + ".ClientAssertion"))
	}
}

func clientv1AuthenticateResponse(l string) *clientv1.AuthenticateResponse {
	m := &clientv1.AuthenticateResponse{}
	n := sub(3)
	depth++
	set_clientv1AuthenticateResponse(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_clientv1AuthenticateResponse(m *clientv1.AuthenticateResponse, i int, l string) {
	switch i {
	case 0:
		m.Error = corev1Error(l + ".Error")
	case 1:
		m.Client = clientv1Client(l + ".Client")
	}
}

func clientv1Client(l string) *clientv1.Client {
	m := &clientv1.Client{}
	n := sub(29)
	depth++
	set_clientv1Client(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_clientv1Client(m *clientv1.Client, i int, l string) {
	switch i {
	case 0:
		m.ClientId = text(l + ".ClientId")
	case 1:
		m.ClientType = clientv1.ClientType(enum(l + ".ClientType"))
	case 2:
		m.RedirectUris = texts(l + ".RedirectUris")
	case 3:
		m.ResponseTypes = texts(l + ".ResponseTypes")
	case 4:
		m.ResponseModes = texts(l + ".ResponseModes")
	case 5:
		m.GrantTypes = texts(l + ".GrantTypes")
	case 6:
		m.ApplicationType = text(l + ".ApplicationType")
	case 7:
		m.Contacts = texts(l + ".Contacts")
	case 8:
		m.ClientName = text(l + ".ClientName")
	case 9:
		m.LogoUri = text(l + ".LogoUri")
	case 10:
		m.ClientUri = text(l + ".ClientUri")
	case 11:
		m.PolicyUri = text(l + ".PolicyUri")
	case 12:
		m.TosUri = text(l + ".TosUri")
	case 13:
		m.JwksUri = text(l + ".JwksUri")
	case 14:
		if b := text(l + ".Jwks"); b != "" {
			m.Jwks = []byte(b)
		}
	case 15:
		if b := text(l + ".ClientSecret"); b != "" {
			m.ClientSecret = []byte(b)
		}
	case 16:
		m.SubjectType = text(l + ".SubjectType")
	case 17:
		m.SectorIdentifier = text(l + ".SectorIdentifier")
	case 18:
		m.TokenEndpointAuthMethod = text(l + ".TokenEndpointAuthMethod")
	case 19:
		m.TlsClientAuthSubjectDn = text(l + ".TlsClientAuthSubjectDn")
	case 20:
		m.TlsClientAuthSanDns = text(l + ".TlsClientAuthSanDns")
	case 21:
		m.TlsClientAuthSanUri = text(l + ".TlsClientAuthSanUri")
	case 22:
		m.TlsClientAuthSanIp = text(l + ".TlsClientAuthSanIp")
	case 23:
		m.TlsClientAuthSanEmail = text(l + ".TlsClientAuthSanEmail")
	case 24:
		m.TlsClientCertificateBoundAccessTokens = flag(l + ".TlsClientCertificateBoundAccessTokens")
	case 25:
		m.RequirePushedAuthorizationRequests = flag(l + ".RequirePushedAuthorizationRequests")
	case 26:
		m.RequireSignedRequestObject = flag(l + ".RequireSignedRequestObject")
	case 27:
		m.DpopBoundAccessTokens = flag(l + ".DpopBoundAccessTokens")
	}
}

func clientv1ClientMeta(l string) *clientv1.ClientMeta {
	m := &clientv1.ClientMeta{}
	n := sub(37)
	depth++
	set_clientv1ClientMeta(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_clientv1ClientMeta(m *clientv1.ClientMeta, i int, l string) {
	switch i {
	case 0:
		m.ApplicationType = ref(text(l + ".ApplicationType"))
	case 1:
		m.RedirectUris = texts(l + ".RedirectUris")
	case 2:
		m.TokenEndpointAuthMethod = ref(text(l + ".TokenEndpointAuthMethod"))
	case 3:
		m.GrantTypes = texts(l + ".GrantTypes")
	case 4:
		m.ResponseTypes = texts(l + ".ResponseTypes")
	case 5:
		m.ClientName = ref(text(l + ".ClientName"))
	case 6:
		m.ClientNameI18N = pairs(l + ".ClientNameI18N")
	case 7:
		m.ClientUri = ref(text(l + ".ClientUri"))
	case 8:
		m.LogoUri = ref(text(l + ".LogoUri"))
	case 9:
		m.LogoUriI18N = pairs(l + ".LogoUriI18N")
	case 10:
		m.Scope = ref(text(l + ".Scope"))
	case 11:
		m.Contacts = texts(l + ".Contacts")
	case 12:
		m.TosUri = ref(text(l + ".TosUri"))
	case 13:
		m.TosUriI18N = pairs(l + ".TosUriI18N")
	case 14:
		m.PolicyUri = ref(text(l + ".PolicyUri"))
	case 15:
		m.PolicyUriI18N = pairs(l + ".PolicyUriI18N")
	case 16:
		m.JwkUri = ref(text(l + ".JwkUri"))
	case 17:
		if b := text(l + ".Jwks"); true {
			m.Jwks = []byte(b)
		}
	case 18:
		m.SoftwareId = ref(text(l + ".SoftwareId"))
	case 19:
		m.SoftwareVersion = ref(text(l + ".SoftwareVersion"))
	case 20:
		m.SoftwareStatement = ref(text(l + ".SoftwareStatement"))
	case 21:
		m.SubjectType = ref(text(l + ".SubjectType"))
	case 22:
		m.SectorIdentifier = ref(text(l + ".SectorIdentifier"))
	case 23:
		m.TlsClientAuthSubjectDn = ref(text(l + ".TlsClientAuthSubjectDn"))
	case 24:
		m.TlsClientAuthSanDns = ref(text(l + ".TlsClientAuthSanDns"))
	case 25:
		m.TlsClientAuthSanUri = ref(text(l + ".TlsClientAuthSanUri"))
	case 26:
		m.TlsClientAuthSanIp = ref(text(l + ".TlsClientAuthSanIp"))
	case 27:
		m.TlsClientAuthSanEmail = ref(text(l + ".TlsClientAuthSanEmail"))
	case 28:
		m.TlsClientCertificateBoundAccessTokens = ref(flag(l + ".TlsClientCertificateBoundAccessTokens"))
	case 29:
		m.IntrospectionSignedResponseAlg = ref(text(l + ".IntrospectionSignedResponseAlg"))
	case 30:
		m.IntrospectionEncryptedResponseAlg = ref(text(l + ".IntrospectionEncryptedResponseAlg"))
	case 31:
		m.IntrospectionEncryptedResponseEnc = ref(text(l + ".IntrospectionEncryptedResponseEnc"))
	case 32:
		m.ResponseModes = texts(l + ".ResponseModes")
	case 33:
		m.RequirePushedAuthorizationRequests = ref(flag(l + ".RequirePushedAuthorizationRequests"))
	case 34:
		m.RequireSignedRequestObject = ref(flag(l + ".RequireSignedRequestObject"))
	case 35:
		m.DpopBoundAccessTokens = ref(flag(l + ".DpopBoundAccessTokens"))
	}
}

func clientv1RegisterRequest(l string) *clientv1.RegisterRequest {
	m := &clientv1.RegisterRequest{}
	n := sub(2)
	depth++
	set_clientv1RegisterRequest(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_clientv1RegisterRequest(m *clientv1.RegisterRequest, i int, l string) {
	switch i {
	case 0:
		m.Metadata = clientv1ClientMeta(l + ".Metadata")
	}
}

func clientv1RegisterResponse(l string) *clientv1.RegisterResponse {
	m := &clientv1.RegisterResponse{}
	n := sub(3)
	depth++
	set_clientv1RegisterResponse(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_clientv1RegisterResponse(m *clientv1.RegisterResponse, i int, l string) {
	switch i {
	case 0:
		m.Error = corev1Error(l + ".Error")
	case 1:
		m.Client = clientv1Client(l + ".Client")
	}
}

func clientv1SoftwareStatement(l string) *clientv1.SoftwareStatement {
	m := &clientv1.SoftwareStatement{}
	n := sub(2)
	depth++
	set_clientv1SoftwareStatement(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_clientv1SoftwareStatement(m *clientv1.SoftwareStatement, i int, l string) {
	switch i {
	case 0:
		m.SoftwareId = text(l + ".SoftwareId")
	}
}

func corev1Error(l string) *corev1.Error {
	m := &corev1.Error{}
	n := sub(6)
	depth++
	set_corev1Error(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_corev1Error(m *corev1.Error, i int, l string) {
	switch i {
	case 0:
		m.Err = text(l + ".Err")
	case 1:
		m.ErrorDescription = text(l + ".ErrorDescription")
	case 2:
		m.ErrorUri = ref(text(l + ".ErrorUri"))
	case 3:
		m.State = ref(text(l + ".State"))
	case 4:
		m.Resource = ref(text(l + ".Resource"))
	}
}

func discoveryv1MTLSEndpoints(l string) *discoveryv1.MTLSEndpoints {
	m := &discoveryv1.MTLSEndpoints{}
	n := sub(6)
	depth++
	set_discoveryv1MTLSEndpoints(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_discoveryv1MTLSEndpoints(m *discoveryv1.MTLSEndpoints, i int, l string) {
	switch i {
	case 0:
		m.TokenEndpoint = text(l + ".TokenEndpoint")
	case 1:
		m.RevocationEndpoint = text(l + ".RevocationEndpoint")
	case 2:
		m.IntrospectionEndpoint = text(l + ".IntrospectionEndpoint")
	case 3:
		m.PushedAuthorizationRequestEndpoint = text(l + ".PushedAuthorizationRequestEndpoint")
	case 4:
		m.DeviceAuthorizationEndpoint = text(l + ".DeviceAuthorizationEndpoint")
	}
}

func discoveryv1ProtectedResourceMetadata(l string) *discoveryv1.ProtectedResourceMetadata {
	m := &discoveryv1.ProtectedResourceMetadata{}
	n := sub(13)
	depth++
	set_discoveryv1ProtectedResourceMetadata(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_discoveryv1ProtectedResourceMetadata(m *discoveryv1.ProtectedResourceMetadata, i int, l string) {
	switch i {
	case 0:
		m.Resource = text(l + ".Resource")
	case 1:
		m.AuthorizationServers = texts(l + ".AuthorizationServers")
	case 2:
		m.JwksUri = ref(text(l + ".JwksUri"))
	case 3:
		m.ScopesProvided = texts(l + ".ScopesProvided")
	case 4:
		m.BearerMethodsSupported = texts(l + ".BearerMethodsSupported")
	case 5:
		m.ResourceSigningAlgValuesSupported = texts(l + ".ResourceSigningAlgValuesSupported")
	case 6:
		m.ResourceEncryptionAlgValuesSupported = texts(l + ".ResourceEncryptionAlgValuesSupported")
	case 7:
		m.ResourceEncryptionEncValuesSupported = texts(l + ".ResourceEncryptionEncValuesSupported")
	case 8:
		m.ResourceDocumentation = ref(text(l + ".ResourceDocumentation"))
	case 9:
		m.ResourcePolicyUri = ref(text(l + ".ResourcePolicyUri"))
	case 10:
		m.ResourceTosUri = ref(text(l + ".ResourceTosUri"))
	case 11:
		m.SignedMetadata = ref(text(l + ".SignedMetadata"))
	}
}

func discoveryv1ServerMetadata(l string) *discoveryv1.ServerMetadata {
	m := &discoveryv1.ServerMetadata{}
	n := sub(57)
	depth++
	set_discoveryv1ServerMetadata(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_discoveryv1ServerMetadata(m *discoveryv1.ServerMetadata, i int, l string) {
	switch i {
	case 0:
		m.Issuer = text(l + ".Issuer")
	case 1:
		m.AuthorizationEndpoint = text(l + ".AuthorizationEndpoint")
	case 2:
		m.TokenEndpoint = text(l + ".TokenEndpoint")
	case 3:
		m.JwksUri = text(l + ".JwksUri")
	case 4:
		m.UserinfoEndpoint = text(l + ".UserinfoEndpoint")
	case 5:
		m.RegistrationEndpoint = text(l + ".RegistrationEndpoint")
	case 6:
		m.ScopesSupported = texts(l + ".ScopesSupported")
	case 7:
		m.ResponseTypesSupported = texts(l + ".ResponseTypesSupported")
	case 8:
		m.ResponseModesSupported = texts(l + ".ResponseModesSupported")
	case 9:
		m.GrantTypesSupported = texts(l + ".GrantTypesSupported")
	case 10:
		m.AcrValuesSupported = texts(l + ".AcrValuesSupported")
	case 11:
		m.SubjectTypesSupported = texts(l + ".SubjectTypesSupported")
	case 12:
		m.IdTokenSigningAlgValuesSupported = texts(l + ".IdTokenSigningAlgValuesSupported")
	case 13:
		m.IdTokenEncryptionAlgValuesSupported = texts(l + ".IdTokenEncryptionAlgValuesSupported")
	case 14:
		m.IdTokenEncryptionEncValuesSupported = texts(l + ".IdTokenEncryptionEncValuesSupported")
	case 15:
		m.UserinfoSigningAlgValuesSupported = texts(l + ".UserinfoSigningAlgValuesSupported")
	case 16:
		m.UserinfoEncryptionAlgValuesSupported = texts(l + ".UserinfoEncryptionAlgValuesSupported")
	case 17:
		m.UserinfoEncryptionEncValuesSupported = texts(l + ".UserinfoEncryptionEncValuesSupported")
	case 18:
		m.RequestObjectSigningAlgValuesSupported = texts(l + ".RequestObjectSigningAlgValuesSupported")
	case 19:
		m.RequestObjectEncryptionAlgValuesSupported = texts(l + ".RequestObjectEncryptionAlgValuesSupported")
	case 20:
		m.RequestObjectEncryptionEncValuesSupported = texts(l + ".RequestObjectEncryptionEncValuesSupported")
	case 21:
		m.TokenEndpointAuthMethodsSupported = texts(l + ".TokenEndpointAuthMethodsSupported")
	case 22:
		m.TokenEndpointAuthSigningAlgValuesSupported = texts(l + ".TokenEndpointAuthSigningAlgValuesSupported")
	case 23:
		m.DisplayValuesSupported = texts(l + ".DisplayValuesSupported")
	case 24:
		m.ClaimTypesSupported = texts(l + ".ClaimTypesSupported")
	case 25:
		m.ClaimsSupported = texts(l + ".ClaimsSupported")
	case 26:
		m.ServiceDocumentation = text(l + ".ServiceDocumentation")
	case 27:
		m.ClaimsLocalesSupported = texts(l + ".ClaimsLocalesSupported")
	case 28:
		m.UiLocalesSupported = texts(l + ".UiLocalesSupported")
	case 29:
		m.ClaimsParameterSupported = flag(l + ".ClaimsParameterSupported")
	case 30:
		m.RequestParameterSupported = flag(l + ".RequestParameterSupported")
	case 31:
		m.RequestUriParameterSupported = flag(l + ".RequestUriParameterSupported")
	case 32:
		m.RequireRequestUriRegistration = flag(l + ".RequireRequestUriRegistration")
	case 33:
		m.OpPolicyUri = text(l + ".OpPolicyUri")
	case 34:
		m.OpTosUri = text(l + ".OpTosUri")
	case 35:
		m.RevocationEndpoint = text(l + ".RevocationEndpoint")
	case 36:
		m.RevocationEndpointAuthMethodsSupported = texts(l + ".RevocationEndpointAuthMethodsSupported")
	case 37:
		m.RevocationEndpointAuthSigningAlgValuesSupported = texts(l + ".RevocationEndpointAuthSigningAlgValuesSupported")
	case 38:
		m.IntrospectionEndpoint = text(l + ".IntrospectionEndpoint")
	case 39:
		m.IntrospectionEndpointAuthMethodsSupported = texts(l + ".IntrospectionEndpointAuthMethodsSupported")
	case 40:
		m.IntrospectionEndpointAuthSigningAlgValuesSupported = texts(l + ".IntrospectionEndpointAuthSigningAlgValuesSupported")
	case 41:
		m.CodeChallengeMethodsSupported = texts(l + ".CodeChallengeMethodsSupported")
	case 42:
		m.PushedAuthorizationRequestEndpoint = text(l + ".PushedAuthorizationRequestEndpoint")
	case 43:
		m.PushedAuthorizationRequestEndpointAuthMethodsSupported = texts(l + ".PushedAuthorizationRequestEndpointAuthMethodsSupported")
	case 44:
		m.MtlsEndpointAliases = discoveryv1MTLSEndpoints(l + ".MtlsEndpointAliases")
	case 45:
		m.DeviceAuthorizationEndpoint = text(l + ".DeviceAuthorizationEndpoint")
	case 46:
		m.DpopSigningAlgValuesSupported = texts(l + ".DpopSigningAlgValuesSupported")
	case 47:
		m.TlsClientCertificateBoundAccessTokens = flag(l + ".TlsClientCertificateBoundAccessTokens")
	case 48:
		m.AuthorizationSigningAlgValuesSupported = texts(l + ".AuthorizationSigningAlgValuesSupported")
	case 49:
		m.AuthorizationEncryptionAlgValuesSupported = texts(l + ".AuthorizationEncryptionAlgValuesSupported")
	case 50:
		m.AuthorizationEncryptionEncValuesSupported = texts(l + ".AuthorizationEncryptionEncValuesSupported")
	case 51:
		m.AuthorizationResponseIssParameterSupported = flag(l + ".AuthorizationResponseIssParameterSupported")
	case 52:
		m.IntrospectionSigningAlgValuesSupported = texts(l + ".IntrospectionSigningAlgValuesSupported")
	case 53:
		m.IntrospectionEncryptionAlgValuesSupported = texts(l + ".IntrospectionEncryptionAlgValuesSupported")
	case 54:
		m.IntrospectionEncryptionEncValuesSupported = texts(l + ".IntrospectionEncryptionEncValuesSupported")
	case 55:
		m.SignedMetadata = text(l + ".SignedMetadata")
	}
}

func flowv1AuthorizationRequest(l string) *flowv1.AuthorizationRequest {
	m := &flowv1.AuthorizationRequest{}
	n := sub(24)
	depth++
	set_flowv1AuthorizationRequest(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_flowv1AuthorizationRequest(m *flowv1.AuthorizationRequest, i int, l string) {
	switch i {
	case 0:
		m.Scope = text(l + ".Scope")
	case 1:
		m.ResponseType = text(l + ".ResponseType")
	case 2:
		m.ClientId = text(l + ".ClientId")
	case 3:
		m.RedirectUri = text(l + ".RedirectUri")
	case 4:
		m.State = text(l + ".State")
	case 5:
		m.ResponseMode = ref(text(l + ".ResponseMode"))
	case 6:
		m.Nonce = text(l + ".Nonce")
	case 7:
		m.Display = ref(text(l + ".Display"))
	case 8:
		m.Prompt = ref(text(l + ".Prompt"))
	case 9:
		m.MaxAge = ref(num(l + ".MaxAge"))
	case 10:
		m.UiLocales = ref(text(l + ".UiLocales"))
	case 11:
		m.IdTokenHint = ref(text(l + ".IdTokenHint"))
	case 12:
		m.AcrValues = ref(text(l + ".AcrValues"))
	case 13:
		m.Request = ref(text(l + ".Request"))
	case 14:
		m.RequestUri = ref(text(l + ".RequestUri"))
	case 15:
		m.CodeChallenge = text(l + ".CodeChallenge")
	case 16:
		m.CodeChallengeMethod = text(l + ".CodeChallengeMethod")
	case 17:
		m.Audience = text(l + ".Audience")
	case 18:
		m.DpopProof = ref(text(l + ".DpopProof"))
	case 19:
		m.Resource = texts(l + ".Resource")
	case 20:
		m.Iss = ref(text(l + ".Iss"))
	case 21:
		m.LoginHintToken = ref(text(l + ".LoginHintToken"))
	case 22:
		m.LoginHint = ref(text(l + ".LoginHint"))
	}
}

func flowv1AuthorizeRequest(l string) *flowv1.AuthorizeRequest {
	m := &flowv1.AuthorizeRequest{}
	n := sub(5)
	depth++
	set_flowv1AuthorizeRequest(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_flowv1AuthorizeRequest(m *flowv1.AuthorizeRequest, i int, l string) {
	switch i {
	case 0:
		m.Issuer = text(l + ".Issuer")
	case 1:
		m.Client = clientv1Client(l + ".Client")
	case 2:
		m.Subject = text(l + ".Subject")
	case 3:
		m.Request = flowv1AuthorizationRequest(l + ".Request")
	}
}

func flowv1AuthorizeResponse(l string) *flowv1.AuthorizeResponse {
	m := &flowv1.AuthorizeResponse{}
	n := sub(9)
	depth++
	set_flowv1AuthorizeResponse(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_flowv1AuthorizeResponse(m *flowv1.AuthorizeResponse, i int, l string) {
	switch i {
	case 0:
		m.Error = corev1Error(l + ".Error")
	case 1:
		m.Code = text(l + ".Code")
	case 2:
		m.State = text(l + ".State")
	case 3:
		m.RedirectUri = text(l + ".RedirectUri")
	case 4:
		m.ClientId = text(l + ".ClientId")
	case 5:
		m.ExpiresIn = num(l + ".ExpiresIn")
	case 6:
		m.Issuer = text(l + ".Issuer")
	case 7:
		m.ResponseMode = text(l + ".ResponseMode")
	}
}

func flowv1DeviceAuthorizationRequest(l string) *flowv1.DeviceAuthorizationRequest {
	m := &flowv1.DeviceAuthorizationRequest{}
	n := sub(5)
	depth++
	set_flowv1DeviceAuthorizationRequest(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_flowv1DeviceAuthorizationRequest(m *flowv1.DeviceAuthorizationRequest, i int, l string) {
	switch i {
	case 0:
		m.Issuer = text(l + ".Issuer")
	case 1:
		m.ClientId = text(l + ".ClientId")
	case 2:
		m.Scope = ref(text(l + ".Scope"))
	case 3:
		m.Audience = ref(text(l + ".Audience"))
	}
}

func flowv1DeviceAuthorizationResponse(l string) *flowv1.DeviceAuthorizationResponse {
	m := &flowv1.DeviceAuthorizationResponse{}
	n := sub(9)
	depth++
	set_flowv1DeviceAuthorizationResponse(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_flowv1DeviceAuthorizationResponse(m *flowv1.DeviceAuthorizationResponse, i int, l string) {
	switch i {
	case 0:
		m.Error = corev1Error(l + ".Error")
	case 1:
		m.DeviceCode = text(l + ".DeviceCode")
	case 2:
		m.UserCode = text(l + ".UserCode")
	case 3:
		m.VerificationUri = text(l + ".VerificationUri")
	case 4:
		m.VerificationUriComplete = ref(text(l + ".VerificationUriComplete"))
	case 5:
		m.ExpiresIn = num(l + ".ExpiresIn")
	case 6:
		m.Interval = num(l + ".Interval")
	case 7:
		m.Issuer = text(l + ".Issuer")
	}
}

func flowv1DeviceCodeValidationRequest(l string) *flowv1.DeviceCodeValidationRequest {
	m := &flowv1.DeviceCodeValidationRequest{}
	n := sub(4)
	depth++
	set_flowv1DeviceCodeValidationRequest(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_flowv1DeviceCodeValidationRequest(m *flowv1.DeviceCodeValidationRequest, i int, l string) {
	switch i {
	case 0:
		m.Issuer = text(l + ".Issuer")
	case 1:
		m.UserCode = text(l + ".UserCode")
	case 2:
		m.Subject = text(l + ".Subject")
	}
}

func flowv1DeviceCodeValidationResponse(l string) *flowv1.DeviceCodeValidationResponse {
	m := &flowv1.DeviceCodeValidationResponse{}
	n := sub(2)
	depth++
	set_flowv1DeviceCodeValidationResponse(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_flowv1DeviceCodeValidationResponse(m *flowv1.DeviceCodeValidationResponse, i int, l string) {
	switch i {
	case 0:
		m.Error = corev1Error(l + ".Error")
	}
}

func flowv1GrantAuthorizationCode(l string) *flowv1.GrantAuthorizationCode {
	m := &flowv1.GrantAuthorizationCode{}
	n := sub(5)
	depth++
	set_flowv1GrantAuthorizationCode(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_flowv1GrantAuthorizationCode(m *flowv1.GrantAuthorizationCode, i int, l string) {
	switch i {
	case 0:
		m.Code = text(l + ".Code")
	case 1:
		m.RedirectUri = text(l + ".RedirectUri")
	case 2:
		m.CodeVerifier = text(l + ".CodeVerifier")
	case 3:
		m.DpopJkt = ref(text(l + ".DpopJkt"))
	}
}

func flowv1GrantClientCredentials(l string) *flowv1.GrantClientCredentials {
	m := &flowv1.GrantClientCredentials{}
	n := sub(1)
	depth++
	set_flowv1GrantClientCredentials(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_flowv1GrantClientCredentials(m *flowv1.GrantClientCredentials, i int, l string) {
	switch i {
	}
}

func flowv1GrantDeviceCode(l string) *flowv1.GrantDeviceCode {
	m := &flowv1.GrantDeviceCode{}
	n := sub(3)
	depth++
	set_flowv1GrantDeviceCode(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_flowv1GrantDeviceCode(m *flowv1.GrantDeviceCode, i int, l string) {
	switch i {
	case 0:
		m.DeviceCode = text(l + ".DeviceCode")
	case 1:
		m.ClientId = text(l + ".ClientId")
	}
}

func flowv1GrantRefreshToken(l string) *flowv1.GrantRefreshToken {
	m := &flowv1.GrantRefreshToken{}
	n := sub(2)
	depth++
	set_flowv1GrantRefreshToken(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_flowv1GrantRefreshToken(m *flowv1.GrantRefreshToken, i int, l string) {
	switch i {
	case 0:
		m.RefreshToken = text(l + ".RefreshToken")
	}
}

func flowv1GrantTokenExchange(l string) *flowv1.GrantTokenExchange {
	m := &flowv1.GrantTokenExchange{}
	n := sub(6)
	depth++
	set_flowv1GrantTokenExchange(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_flowv1GrantTokenExchange(m *flowv1.GrantTokenExchange, i int, l string) {
	switch i {
	case 0:
		m.RequestedTokenType = ref(text(l + ".RequestedTokenType"))
	case 1:
		m.SubjectToken = text(l + ".SubjectToken")
	case 2:
		m.SubjectTokenType = text(l + ".SubjectTokenType")
	case 3:
		m.ActorToken = ref(text(l + ".ActorToken"))
	case 4:
		m.ActorTokenType = ref(text(l + ".ActorTokenType"))
	}
}

func flowv1RegistrationRequest(l string) *flowv1.RegistrationRequest {
	m := &flowv1.RegistrationRequest{}
	n := sub(5)
	depth++
	set_flowv1RegistrationRequest(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_flowv1RegistrationRequest(m *flowv1.RegistrationRequest, i int, l string) {
	switch i {
	case 0:
		m.Issuer = text(l + ".Issuer")
	case 1:
		m.Client = clientv1Client(l + ".Client")
	case 2:
		m.Request = flowv1AuthorizationRequest(l + ".Request")
	case 3:
		m.Confirmation = tokenv1TokenConfirmation(l + ".Confirmation")
	}
}

func flowv1RegistrationResponse(l string) *flowv1.RegistrationResponse {
	m := &flowv1.RegistrationResponse{}
	n := sub(5)
	depth++
	set_flowv1RegistrationResponse(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_flowv1RegistrationResponse(m *flowv1.RegistrationResponse, i int, l string) {
	switch i {
	case 0:
		m.Error = corev1Error(l + ".Error")
	case 1:
		m.RequestUri = text(l + ".RequestUri")
	case 2:
		m.ExpiresIn = num(l + ".ExpiresIn")
	case 3:
		m.Issuer = text(l + ".Issuer")
	}
}

func flowv1TokenRequest(l string) *flowv1.TokenRequest {
	m := &flowv1.TokenRequest{}
	n := sub(13)
	depth++
	set_flowv1TokenRequest(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_flowv1TokenRequest(m *flowv1.TokenRequest, i int, l string) {
	switch i {
	case 0:
		m.Issuer = text(l + ".Issuer")
	case 1:
		m.Client = clientv1Client(l + ".Client")
	case 2:
		m.GrantType = text(l + ".GrantType")
	case 3:
		m.Scope = ref(text(l + ".Scope"))
	case 4:
		m.TokenConfirmation = tokenv1TokenConfirmation(l + ".TokenConfirmation")
	case 5:
		m.Resource = texts(l + ".Resource")
	case 6:
		m.Audience = ref(text(l + ".Audience"))
	case 7:
		m.Grant = &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: flowv1GrantAuthorizationCode(l + ".AuthorizationCode")}
	case 8:
		m.Grant = &flowv1.TokenRequest_ClientCredentials{ClientCredentials: flowv1GrantClientCredentials(l + ".ClientCredentials")}
	case 9:
		m.Grant = &flowv1.TokenRequest_DeviceCode{DeviceCode: flowv1GrantDeviceCode(l + ".DeviceCode")}
	case 10:
		m.Grant = &flowv1.TokenRequest_RefreshToken{RefreshToken: flowv1GrantRefreshToken(l + ".RefreshToken")}
	case 11:
		m.Grant = &flowv1.TokenRequest_TokenExchange{TokenExchange: flowv1GrantTokenExchange(l + ".TokenExchange")}
	}
}

func flowv1TokenResponse(l string) *flowv1.TokenResponse {
	m := &flowv1.TokenResponse{}
	n := sub(8)
	depth++
	set_flowv1TokenResponse(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_flowv1TokenResponse(m *flowv1.TokenResponse, i int, l string) {
	switch i {
	case 0:
		m.Error = corev1Error(l + ".Error")
	case 1:
		m.AccessToken = tokenv1Token(l + ".AccessToken")
	case 2:
		m.RefreshToken = tokenv1Token(l + ".RefreshToken")
	case 3:
		m.IdToken = tokenv1Token(l + ".IdToken")
	case 4:
		m.Issuer = text(l + ".Issuer")
	case 5:
		m.IssuedTokenType = ref(text(l + ".IssuedTokenType"))
	case 6:
		m.Scope = ref(text(l + ".Scope"))
	}
}

func resourcev1Resource(l string) *resourcev1.Resource {
	m := &resourcev1.Resource{}
	n := sub(4)
	depth++
	set_resourcev1Resource(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_resourcev1Resource(m *resourcev1.Resource, i int, l string) {
	switch i {
	case 0:
		m.Urn = text(l + ".Urn")
	case 1:
		m.Description = text(l + ".Description")
	case 2:
		m.Urls = texts(l + ".Urls")
	}
}

func sessionv1AuthorizationCodeSession(l string) *sessionv1.AuthorizationCodeSession {
	m := &sessionv1.AuthorizationCodeSession{}
	n := sub(5)
	depth++
	set_sessionv1AuthorizationCodeSession(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_sessionv1AuthorizationCodeSession(m *sessionv1.AuthorizationCodeSession, i int, l string) {
	switch i {
	case 0:
		m.Client = clientv1Client(l + ".Client")
	case 1:
		m.Issuer = text(l + ".Issuer")
	case 2:
		m.Subject = text(l + ".Subject")
	case 3:
		m.Request = flowv1AuthorizationRequest(l + ".Request")
	}
}

func sessionv1DeviceCodeSession(l string) *sessionv1.DeviceCodeSession {
	m := &sessionv1.DeviceCodeSession{}
	n := sub(11)
	depth++
	set_sessionv1DeviceCodeSession(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_sessionv1DeviceCodeSession(m *sessionv1.DeviceCodeSession, i int, l string) {
	switch i {
	case 0:
		m.Client = clientv1Client(l + ".Client")
	case 1:
		m.Issuer = text(l + ".Issuer")
	case 2:
		m.ExpiresAt = num(l + ".ExpiresAt")
	case 3:
		m.Request = flowv1DeviceAuthorizationRequest(l + ".Request")
	case 4:
		m.Status = sessionv1.DeviceCodeStatus(enum(l + ".Status"))
	case 5:
		m.DeviceCode = text(l + ".DeviceCode")
	case 6:
		m.ConfirmationCode = text(l + ".ConfirmationCode")
	case 7:
		m.Subject = ref(text(l + ".Subject"))
	case 8:
		m.Scope = ref(text(l + ".Scope"))
	case 9:
		m.Audience = ref(text(l + ".Audience"))
	}
}

func tokenv1Actor(l string) *tokenv1.Actor {
	m := &tokenv1.Actor{}
	n := sub(5)
	depth++
	set_tokenv1Actor(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_tokenv1Actor(m *tokenv1.Actor, i int, l string) {
	switch i {
	case 0:
		m.Issuer = text(l + ".Issuer")
	case 1:
		m.Subject = text(l + ".Subject")
	case 2:
		m.ClientId = text(l + ".ClientId")
	case 3:
		m.Act = tokenv1Actor(l + ".Act")
	}
}

func tokenv1IntrospectRequest(l string) *tokenv1.IntrospectRequest {
	m := &tokenv1.IntrospectRequest{}
	n := sub(5)
	depth++
	set_tokenv1IntrospectRequest(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_tokenv1IntrospectRequest(m *tokenv1.IntrospectRequest, i int, l string) {
	switch i {
	case 0:
		m.Issuer = text(l + ".Issuer")
	case 1:
		m.Client = clientv1Client(l + ".Client")
	case 2:
		m.Token = text(l + ".Token")
	case 3:
		m.TokenTypeHint = ref(text(l + ".TokenTypeHint"))
	}
}

func tokenv1IntrospectResponse(l string) *tokenv1.IntrospectResponse {
	m := &tokenv1.IntrospectResponse{}
	n := sub(3)
	depth++
	set_tokenv1IntrospectResponse(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_tokenv1IntrospectResponse(m *tokenv1.IntrospectResponse, i int, l string) {
	switch i {
	case 0:
		m.Error = corev1Error(l + ".Error")
	case 1:
		m.Token = tokenv1Token(l + ".Token")
	}
}

func tokenv1OAuthTokenResponse(l string) *tokenv1.OAuthTokenResponse {
	m := &tokenv1.OAuthTokenResponse{}
	n := sub(6)
	depth++
	set_tokenv1OAuthTokenResponse(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_tokenv1OAuthTokenResponse(m *tokenv1.OAuthTokenResponse, i int, l string) {
	switch i {
	case 0:
		m.AccessToken = text(l + ".AccessToken")
	case 1:
		m.TokenType = text(l + ".TokenType")
	case 2:
		m.ExpiresIn = num(l + ".ExpiresIn")
	case 3:
		m.RefreshToken = ref(text(l + ".RefreshToken"))
	case 4:
		m.IdToken = ref(text(l + ".IdToken"))
	}
}

func tokenv1RevokeRequest(l string) *tokenv1.RevokeRequest {
	m := &tokenv1.RevokeRequest{}
	n := sub(5)
	depth++
	set_tokenv1RevokeRequest(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_tokenv1RevokeRequest(m *tokenv1.RevokeRequest, i int, l string) {
	switch i {
	case 0:
		m.Issuer = text(l + ".Issuer")
	case 1:
		m.Client = clientv1Client(l + ".Client")
	case 2:
		m.Token = text(l + ".Token")
	case 3:
		m.TokenTypeHint = ref(text(l + ".TokenTypeHint"))
	}
}

func tokenv1RevokeResponse(l string) *tokenv1.RevokeResponse {
	m := &tokenv1.RevokeResponse{}
	n := sub(2)
	depth++
	set_tokenv1RevokeResponse(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_tokenv1RevokeResponse(m *tokenv1.RevokeResponse, i int, l string) {
	switch i {
	case 0:
		m.Error = corev1Error(l + ".Error")
	}
}

func tokenv1Token(l string) *tokenv1.Token {
	m := &tokenv1.Token{}
	n := sub(11)
	depth++
	set_tokenv1Token(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_tokenv1Token(m *tokenv1.Token, i int, l string) {
	switch i {
	case 0:
		m.Issuer = text(l + ".Issuer")
	case 1:
		m.TokenType = tokenv1.TokenType(enum(l + ".TokenType"))
	case 2:
		m.TokenId = text(l + ".TokenId")
	case 3:
		m.Metadata = tokenv1TokenMeta(l + ".Metadata")
	case 4:
		m.Status = tokenv1.TokenStatus(enum(l + ".Status"))
	case 5:
		m.Value = text(l + ".Value")
	case 6:
		m.Phantom = ref(text(l + ".Phantom"))
	case 7:
		m.Confirmation = tokenv1TokenConfirmation(l + ".Confirmation")
	case 8:
		m.Actor = list(l+".Actor", tokenv1Actor)
	case 9:
		m.MayAct = list(l+".MayAct", tokenv1Actor)
	}
}

func tokenv1TokenConfirmation(l string) *tokenv1.TokenConfirmation {
	m := &tokenv1.TokenConfirmation{}
	n := sub(2)
	depth++
	set_tokenv1TokenConfirmation(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_tokenv1TokenConfirmation(m *tokenv1.TokenConfirmation, i int, l string) {
	switch i {
	case 0:
		m.Jkt = text(l + ".Jkt")
	}
}

func tokenv1TokenMeta(l string) *tokenv1.TokenMeta {
	m := &tokenv1.TokenMeta{}
	n := sub(11)
	depth++
	set_tokenv1TokenMeta(m, vs.Choose(l+"?", n)-1, l)
	depth--
	return m
}

func set_tokenv1TokenMeta(m *tokenv1.TokenMeta, i int, l string) {
	switch i {
	case 0:
		m.Issuer = text(l + ".Issuer")
	case 1:
		m.Subject = text(l + ".Subject")
	case 2:
		m.IssuedAt = num(l + ".IssuedAt")
	case 3:
		m.NotBefore = num(l + ".NotBefore")
	case 4:
		m.ExpiresAt = num(l + ".ExpiresAt")
	case 5:
		m.ClientId = text(l + ".ClientId")
	case 6:
		m.Scope = text(l + ".Scope")
	case 7:
		m.Audience = text(l + ".Audience")
	case 8:
		m.Acr = ref(text(l + ".Acr"))
	case 9:
		m.AuthTime = ref(num(l + ".AuthTime"))
	}
}
