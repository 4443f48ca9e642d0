package props

import (
	"io"
	"net/http"
	"net/url"
	"strconv"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/grant"
	"vharness/nd"
)

// sentBody is the body of a request as it comes from the network.
type sentBody struct {
	text  string
	off   int
	ended bool
}

func (b *sentBody) Read(p []byte) (int, error) {
	if b.ended || b.off == len(b.text) {
		return 0, io.EOF
	}
	n := copy(p, b.text[b.off:])
	b.off += n
	return n, nil
}

func (b *sentBody) Close() error {
	b.ended = true
	return nil
}

// sent is a request as it was sent.
type sent struct {
	r       *http.Request
	method  string
	url     url.URL
	host    string
	remote  string
	uri     string
	headers map[string][]string
	body    *sentBody
}

// sentReq builds a request whose form is not parsed yet.
func sentReq(method, path, query, typ, text string, h map[string][]string) *sent {
	s := &sent{method: method, url: url.URL{Scheme: "", Path: path, RawQuery: query}, host: nd.StrIn("host", textClass, 0, -1), remote: nd.StrIn("remote", textClass, 0, -1),
		uri: nd.StrIn("request_uri", textClass, 0, -1), headers: map[string][]string{}, body: &sentBody{text: text}}
	u := s.url
	s.r = &http.Request{Method: method, URL: &u, Header: http.Header{}, Host: s.host, RemoteAddr: s.remote, RequestURI: s.uri, Body: s.body, ContentLength: int64(len(text)),
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	if typ != "" {
		h["Content-Type"] = []string{typ}
	}
	for k, v := range h {
		s.headers[k] = append([]string(nil), v...)
		s.r.Header[k] = append([]string(nil), v...)
	}
	return s
}

// unchanged: the request is as it was sent, but for the named headers.
func (s *sent) unchanged(but ...string) {
	r := s.r
	nd.Assert(nd.And(r.Method == s.method, r.Host == s.host, r.RemoteAddr == s.remote, r.RequestURI == s.uri), "method, host and addresses are those sent")
	nd.Assert(nd.And(r.URL != nil, r.URL.Path == s.url.Path, r.URL.RawQuery == s.url.RawQuery, r.URL.Host == "", r.URL.Fragment == ""), "the URL is the one sent")
	skip := map[string]bool{}
	for _, k := range but {
		skip[k] = true
	}
	for k, v := range s.headers {
		if skip[k] {
			continue
		}
		got := r.Header[k]
		nd.Assert(len(got) == len(v), "a header has the values sent")
		if len(got) == len(v) {
			for i := range v {
				nd.Assert(got[i] == v[i], "a header has the values sent")
			}
		}
	}
	for k := range r.Header {
		_, was := s.headers[k]
		nd.Assert(was || skip[k], "no header is added")
	}
}

// unread: the application can read the body that was sent.
func (s *sent) unread() {
	if s.r.Body == io.ReadCloser(s.body) && s.body.off == 0 && !s.body.ended {
		nd.Reach("not read")
		return
	}
	b, err := io.ReadAll(s.r.Body)
	nd.Assert(err == nil && string(b) == s.body.text, "the body is the one sent")
	nd.Reach("read and put back")
}

const formType = "application/x-www-form-urlencoded"

// C45_resource: a request that the protector admits.
func C45_resource() {
	meth := acceptMethod()
	c := newRP(meth)
	c.d.oldTok, c.d.info = newToken("token"), newInfo([]string{"openid read", "read"}[nd.Choice("scope", 2)])
	nd.Assume(c.d.oldTok.refreshed+c.d.oldTok.accessExp >= c.now)
	h := map[string][]string{"Cookie": {nd.StrIn("cookie", textClass, 0, -1), nd.StrIn("cookie", textClass, 0, -1)}, "X-Forwarded-For": {nd.StrIn("forwarded", textClass, 0, -1)}}
	method := []string{"GET", "POST", "PUT", "PATCH", "DELETE"}[nd.Choice("method", 5)]
	query, text := nd.StrIn("query", "a-z0-9", 0, 8), ""
	if nd.Bool("bearer") {
		h["Authorization"] = []string{"Bearer " + nd.StrIn("token", "!#-[]-~", 1, -1)}
	} else {
		nd.Assume(meth != goidc.FromHeader)
	}
	_, bearer := h["Authorization"]
	typ := []string{"application/json", formType, formType + "; charset=UTF-8", "text/plain", ""}[nd.Choice("type", 5)]
	hasBody := method == "POST" || method == "PUT" || method == "PATCH"
	v := nd.StrIn("value", "a-z0-9", 0, 4)
	if isForm(typ) {
		text = "a=1&v=" + v
	} else {
		text = "{" + nd.StrIn("body", textClass, 0, -1) + "}"
	}
	if !bearer {
		if meth == goidc.FromAll && nd.Bool("token_in_query") {
			query = "access_token=tok&q=" + query
		} else {
			nd.Assume(isForm(typ) && hasBody)
			text += "&access_token=tok"
		}
	}
	if nd.Bool("forged") {
		for _, k := range []string{"X-Oauth-User-Id", "X-Oauth-Client-Id", "X-Oauth-Scope"} {
			h[k] = []string{nd.StrIn("forged", textClass, 0, -1)}
		}
	}
	path := "/x"
	if nd.Bool("other_path") {
		path = []string{"/a//b/../", "/A/\u00e9 ", ""}[nd.Choice("path", 3)]
	}
	s := sentReq(method, path, query, typ, text, h)
	c.r = s.r
	ok := false
	if nd.Bool("scopes") {
		ok = c.rp.ValidateWithScopes(c.w, s.r, c.d, map[string][]string{"/x": {"read"}})
	} else {
		ok = c.rp.Validate(c.w, s.r, c.d)
	}
	nd.Assert(ok, "a live token in an enabled location is admitted")
	if !ok {
		return
	}
	s.unchanged("X-Oauth-User-Id", "X-Oauth-Client-Id", "X-Oauth-Scope")
	if meth == goidc.FromHeader || !isForm(typ) || !hasBody {
		s.unread()
	} else {
		nd.Assert(nd.And(s.r.PostFormValue("a") == "1", s.r.PostFormValue("v") == v, s.r.FormValue("v") == v), "the form's values can be read")
		nd.Reach("form")
	}
}

// C45_pending: the request by which the user agrees or refuses, whatever its
// body, is not read.
func C45_pending() {
	c := newAuth()
	c.pending()
	c.faults()
	method := []string{"GET", "POST"}[nd.Choice("method", 2)]
	typ := []string{"application/json", formType, ""}[nd.Choice("type", 3)]
	h := map[string][]string{"Cookie": {nd.StrIn("cookie", textClass, 0, -1)}, "Authorization": {nd.StrIn("authorization", textClass, 0, -1)}}
	s := sentReq(method, "/a", nd.StrIn("query", "a-z0-9", 0, 8), typ, "a=1&v="+nd.StrIn("value", "a-z0-9", 0, 4), h)
	if nd.Bool("cancel") {
		c.endpoint().CancelRequest(c.w, s.r, c.cb)
	} else {
		c.endpoint().CompleteRequest(c.w, s.r, c.cb)
	}
	s.unchanged()
	if s.body.off == 0 {
		s.unread()
		return
	}
	nd.Assert(isForm(typ) && method == "POST", "only a form is read")
	nd.Assert(nd.And(s.r.PostFormValue("a") == "1", s.r.PostFormValue("v") == s.body.text[6:]), "the form's values can be read")
}

func isForm(typ string) bool { return typ == formType || typ == formType+"; charset=UTF-8" }

// C45_authorize: an authorization request; its form can be read afterwards,
// as the login and consent screens do.
func C45_authorize() {
	c := newAuth()
	c.faults()
	c.d.info = newInfo("openid")
	state, own := nd.StrIn("sent.state", "a-z0-9", 0, 4), nd.StrIn("own", "a-z0-9", 0, 4)
	p := "client_id=client&redirect_uri=https%3A%2F%2Fc%2F&response_type=code&scope=openid&prompt=" + []string{"none", "login", "", "x"}[nd.Choice("prompt", 4)] +
		"&state=" + state + "&own=" + own
	h := map[string][]string{"Cookie": {nd.StrIn("cookie", textClass, 0, -1)}, "Accept-Language": {nd.StrIn("language", textClass, 0, -1)}}
	var s *sent
	if nd.Bool("post") {
		s = sentReq("POST", "/authorize", "", formType, p, h)
	} else {
		s = sentReq("GET", "/authorize", p, "", "", h)
	}
	c.endpoint().HandleRequest(c.w, s.r, c.cb)
	s.unchanged()
	nd.Assert(nd.And(s.r.FormValue("state") == state, s.r.FormValue("own") == own, s.r.FormValue("client_id") == "client", len(s.r.Form) == 7), "the parameters can be read")
	nd.Reach("status " + strconv.Itoa(c.w.status))
}

// C45_token: a token request, however it is answered.
func C45_token() {
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(nopLogger{})
	te.AcceptClientSecret(acceptMethod())
	te.AcceptClientAssertion(nd.Bool("assertions"))
	te.SetTimeBuilder(setClock(symNow()))
	te.Support(grant.Password())
	te.Support(grant.ClientCredentials())
	d := newDI().faulty()
	d.client = &symClient{secret: "s", scopeOK: true}
	d.info, d.token = newInfo("read"), newToken("new")
	h := map[string][]string{"Cookie": {nd.StrIn("cookie", textClass, 0, -1)}}
	own := nd.StrIn("own", "a-z0-9", 0, 4)
	text := "grant_type=" + []string{"password&username=u&password=p", "client_credentials", "x"}[nd.Choice("grant", 3)] + "&own=" + own
	if nd.Bool("basic") {
		h["Authorization"] = []string{basicHeader("c", []string{"s", "x"}[nd.Choice("right", 2)])}
	} else {
		text += "&client_id=c&client_secret=s"
	}
	method := []string{"POST", "PUT"}[nd.Choice("method", 2)]
	s := sentReq(method, "/token", nd.StrIn("query", "a-z0-9", 0, 4), formType, text, h)
	w := newRecorder()
	te.Handler(d)(w, s.r)
	s.unchanged()
	nd.Assert(nd.And(s.r.FormValue("own") == own, s.r.PostFormValue("own") == own), "the parameters can be read")
	nd.Reach("status " + strconv.Itoa(w.status))
}
