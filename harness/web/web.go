// Package web sends requests to HTTP handlers without a server.
package web

import (
	"context"
	"crypto/tls"
	"encoding/json"
	"net/http"
	"net/url"

	"zntr.io/solid/zzverif/jt"
)

// Answer records what a handler answers.
type Answer struct {
	H    http.Header
	Code int
	Body []byte
}

func (a *Answer) Header() http.Header { return a.H }

func (a *Answer) WriteHeader(c int) {
	if a.Code == 0 {
		a.Code = c
	}
}

func (a *Answer) Write(b []byte) (int, error) {
	a.WriteHeader(200)
	a.Body = append(a.Body, b...)
	return len(b), nil
}

// Doc is the JSON document answered.
func (a *Answer) Doc() map[string]any {
	var m map[string]any
	if json.Unmarshal(a.Body, &m) != nil {
		return nil
	}
	return m
}

// Serve sends one request; a handler that gives up answers 500, as net/http does.
func Serve(h http.Handler, r *http.Request) (a *Answer) {
	a = &Answer{H: http.Header{}}
	defer func() {
		if e := recover(); e != nil {
			a.Code, a.Body = 500, nil
		}
	}()
	h.ServeHTTP(a, r)
	a.WriteHeader(200)
	return a
}

// Request is a request whose form was read already.
func Request(method, target string, form map[string]string) *http.Request {
	u, _ := url.Parse(target)
	r := &http.Request{Method: method, URL: u, Host: u.Host, TLS: &tls.ConnectionState{}, Header: http.Header{}, Form: url.Values{}, PostForm: url.Values{}}
	for k, v := range form {
		r.Form.Set(k, v)
		if method == "POST" {
			r.PostForm.Set(k, v)
		}
	}
	return r.WithContext(context.Background())
}

// Assertion is one of 6 ways to authenticate as client "c" of key 0 (identifier "k") at an issuer.
func Assertion(kind int, now int64, issuer string) (compact string, fits bool) {
	h := map[string]any{"alg": "ES256", "kid": "k"}
	c := map[string]any{"iss": "c", "sub": "c", "aud": issuer, "jti": "1", "exp": uint64(now + 30), "iat": uint64(now)}
	switch kind {
	case 0:
		return "", false
	case 1:
		return jt.Sign(h, c, 0), true
	case 2:
		return jt.Forge(h, c, 0), false
	case 3:
		return jt.Sign(h, c, 1), false
	case 4:
		c["exp"] = uint64(now - 1)
	case 5:
		c["sub"] = "d"
	}
	return jt.Sign(h, c, 0), false
}
