package props

import (
	"crypto/tls"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/flow"
	"vharness/nd"
)

// bare is a request with nothing but what has a meaning.
func bare(method, path string, body, query url.Values) *http.Request {
	form := url.Values{}
	for k, v := range body {
		form[k] = append([]string(nil), v...)
	}
	for k, v := range query {
		form[k] = append(form[k], v...)
	}
	return &http.Request{Method: method, URL: &url.URL{Path: path, RawQuery: query.Encode()}, Header: http.Header{}, Form: form, PostForm: body}
}

// noise sets what has no meaning.
func (q *reading) noise() {
	r := q.r
	r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/1.0", 1, 0
	if nd.Bool("noise.tls") {
		r.Proto, r.ProtoMajor = "HTTP/2.0", 2
		r.TLS = &tls.ConnectionState{ServerName: nd.StrIn("noise.server", textClass, 0, -1)}
	}
	r.RequestURI = nd.StrIn("noise.uri", textClass, 0, -1)
	r.URL.Scheme = nd.StrIn("noise.scheme", "a-z", 0, -1)
	r.URL.Host = nd.StrIn("noise.host", textClass, 0, -1)
	r.URL.Fragment = nd.StrIn("noise.fragment", textClass, 0, -1)
	r.ContentLength = nd.Int("noise.length", -1, maxT)
	r.Close = nd.Bool("noise.close")
	if r.URL.RawQuery != "" {
		r.URL.RawQuery += "&"
	}
	r.URL.RawQuery += "debug=1&format=jwt&_method=GET&lang=de&realm=x"
}

// meaningless: the request has the outcome it has without anything meaningless.
// The address that proxies name in headers may be logged.
func (q *reading) meaningless() {
	q.sv = q.make()
	addr := []string{"X-Forwarded-For", nd.StrIn("forwarded", textClass, 0, -1), "Remote_addr", nd.StrIn("addr", textClass, 0, -1)}
	send := func() {
		if q.header != "" {
			q.r.Header.Set("Authorization", q.header)
		}
	}
	address := func() {
		for i := 0; i < len(addr); i += 2 {
			q.r.Header[addr[i]] = []string{addr[i+1]}
		}
	}
	plain := nd.Alone(func() string {
		q.r = bare(q.method, paths[q.kind], q.body, q.query)
		send()
		return q.sv.handle(q.step)
	})
	logged := nd.Alone(func() string {
		q.r = bare(q.method, paths[q.kind], q.body, q.query)
		send()
		address()
		return q.logged()
	})
	q.sent()
	address()
	q.noise()
	got := q.logged()
	nd.Assert(strings.HasPrefix(got, plain+"\nlogged"), "what has no meaning changes nothing")
	nd.Assert(got == logged, "nor does it change what is logged")
	nd.Reach("status " + strconv.Itoa(q.w.status))
}

// C46_token: the token endpoint.
func C46_token() { tokenReading().meaningless() }

// C46_resource: the resource protector.
func C46_resource() { resourceReading().meaningless() }

// C46_authorize: the authorization endpoint.
func C46_authorize() { authorizeReading().meaningless() }

// C46_pending: the user agrees or refuses.
func C46_pending() {
	q := newReading(kComplete + nd.Choice("refuse", 2))
	q.method = []string{"GET", "POST"}[nd.Choice("method", 2)]
	text := func(n string) string { return nd.StrIn(n, textClass, 0, -1) }
	q.cb = &cbs{n: map[string]int{}, def: 1, login: nd.Bool("login"), from: true, match: true, authTime: nd.Int("auth_time", 0, maxTime), uid: nd.Int("uid", 0, maxT),
		code: nd.StrIn("code", codeText, 1, -1), locale: "en"}
	q.cb.req = &authorization.Request{
		Flow:         &flow.Flow{Type: flow.AuthorizationCode},
		ClientId:     text("req.client"),
		RedirectURI:  "https://c/" + nd.StrIn("req.uri", "A-Za-z0-9", 0, -1),
		Scope:        text("req.scope"),
		ResponseMode: []string{"query", "fragment", "form_post"}[nd.Choice("req.mode", 3)],
		State:        text("req.state"),
		Nonce:        text("req.nonce"),
	}
	if nd.Bool("req.idt") {
		q.cb.req.Flow = &flow.Flow{Type: flow.Hybrid, RequireIdToken: true, RequireAccessToken: nd.Bool("req.at")}
	}
	q.make = func() *server { return newServer(c33Policy()) }
	q.meaningless()
}
