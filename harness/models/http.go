package models

import (
	"net/http"
	"net/url"
)

// clientDo sends one request through the transport: no redirects, cookies or timeouts.
//
//gosym:replace (*net/http.Client).Do
func clientDo(c *http.Client, req *http.Request) (*http.Response, error) {
	t := c.Transport
	if t == nil {
		t = http.DefaultTransport
	}
	if req.URL == nil {
		return nil, &url.Error{Op: req.Method, Err: &wrapErr{msg: "http: nil Request.URL"}}
	}
	res, err := t.RoundTrip(req)
	if err != nil {
		return nil, &url.Error{Op: req.Method, URL: req.URL.String(), Err: err}
	}
	if res == nil {
		return nil, &url.Error{Op: req.Method, URL: req.URL.String(), Err: &wrapErr{msg: "http: nil *Response"}}
	}
	if res.Body == nil {
		res.Body = http.NoBody
	}
	return res, nil
}
