package props

import (
	"net/url"
	"strconv"

	"github.com/lyokato/goidc"
	"vharness/nd"
)

// reading is a request whose parameters are given once, and then more often.
type reading struct {
	*step
	body, query url.Values
	// other values of a parameter that mean something; else it is any text
	other map[string]string
	make  func() *server
	sv    *server
	// its method and Authorization header
	method, header string
}

// param sets a parameter: to its right value, or, if it is the spoilt one, to
// a wrong or an empty one.
func (q *reading) param(v url.Values, spoilt, k, right, wrong string) {
	if k == spoilt {
		v.Set(k, []string{wrong, ""}[nd.Choice("spoilt", 2)])
		q.other[k] = right
		return
	}
	v.Set(k, right)
	if _, ok := q.other[k]; !ok && wrong != "" {
		q.other[k] = wrong
	}
}

// more gives the parameters of the request again.
func (q *reading) more() {
	inQuery := len(q.body) == 0 || nd.Bool("again_in_query")
	add := func(k string) {
		x, ok := q.other[k]
		if !ok {
			x = nd.StrIn("again."+k, textClass, 0, -1)
		}
		if inQuery {
			q.query[k] = append(q.query[k], x)
		} else {
			q.r.PostForm[k] = append(q.r.PostForm[k], x)
		}
		q.r.Form[k] = append(append([]string(nil), q.r.PostForm[k]...), q.query[k]...)
	}
	for _, k := range known[q.r.URL.Path] {
		if len(q.r.Form[k]) > 0 {
			add(k)
		}
	}
	q.r.URL.RawQuery = q.query.Encode()
	if h := q.r.Header["Authorization"]; len(h) > 0 {
		q.r.Header["Authorization"] = append(h, []string{"Bearer other", "Basic eDp5"}[nd.Choice("again.header", 2)])
	}
}

// once: it has the outcome it has with each parameter given once.
func (q *reading) once() {
	q.sv = q.make()
	q.sent()
	one := nd.Alone(q.logged)
	q.more()
	nd.Assert(q.logged() == one, "the first value of each parameter counts")
	nd.Reach("status " + strconv.Itoa(q.w.status))
}

// logged handles the request; its outcome and what is logged.
func (q *reading) logged() string {
	l := &memLogger{}
	q.sv.tokens.SetLogger(l)
	q.sv.rp.SetLogger(l)
	q.sv.ae.SetLogger(l)
	o := q.sv.handle(q.step) + "\nlogged"
	for i, s := range l.lines {
		o += "\n" + strconv.Itoa(l.levels[i]) + s
	}
	return o
}

var paths = []string{"/token", "/resource", "/authorize", "/continue", "/continue"}

// sent makes the request.
func (q *reading) sent() {
	q.r = newReq(q.method, paths[q.kind], q.body, q.query)
	if q.header != "" {
		q.r.Header.Set("Authorization", q.header)
	}
}

func newReading(kind int) *reading {
	q := &reading{step: newStepAt("a", kind), body: url.Values{}, query: url.Values{}, other: map[string]string{}, method: "POST"}
	if nd.Tier() > 0 {
		// one call fails
		if at := nd.Choice("fault.at", 7); at > 0 {
			q.d.faulty()
			q.d.faultAt, q.d.faultKind = at, 1+nd.Choice("fault.kind", 4)
		}
	}
	return q
}

// C42_token: the token endpoint.
func C42_token() { tokenReading().once() }

// C42_resource: the resource protector.
func C42_resource() { resourceReading().once() }

// C42_authorize: the authorization endpoint, by GET or POST.
func C42_authorize() { authorizeReading().once() }

// tokenReading: the client's id and secret are in the header or the body, or
// there is an assertion.
func tokenReading() *reading {
	q := newReading(kToken)
	d, v := q.d, q.body
	if nd.Bool("query") {
		v = q.query
	}
	names := []string{"code", "redirect_uri", "code_challenge", "code_challenge_method", "username", "password", "scope", "refresh_token", "assertion",
		"client_id", "client_secret", "client_assertion", "client_assertion_type", "grant_type"}
	k := nd.Choice("spoil", len(names)+1)
	spoilt := ""
	if k > 0 {
		spoilt = names[k-1]
	}
	word := func(n string) string { return nd.StrIn(n, "a-z", 1, -1) }
	grants := []string{"authorization_code", "refresh_token", "password", "client_credentials", "urn:ietf:params:oauth:grant-type:jwt-bearer"}
	gt := grants[nd.Choice("grant", 5)]
	q.other["grant_type"] = "client_credentials"
	q.param(v, spoilt, "grant_type", gt, "x")
	id := word("client")
	d.client.secret = word("secret")
	d.client.assertKey = func(alg, kid string) interface{} { return []byte("k") }
	d.info.clientId = id
	meth, asr := goidc.FromHeader, false
	switch nd.Choice("how", 3) {
	case 0:
		q.header = basicHeader(id, d.client.secret)
	case 1:
		meth = goidc.FromAll
		if len(q.query) == 0 {
			meth = []goidc.CredentialAcceptanceMethod{goidc.FromHeaderAndPostBody, goidc.FromAll}[nd.Choice("accept", 2)]
		}
		q.param(v, spoilt, "client_id", id, "")
		q.param(v, spoilt, "client_secret", d.client.secret, "!")
	case 2:
		asr = true
		q.param(v, spoilt, "client_assertion", hsToken(id, "https://op", q.now+10, "k"), hsToken("other", "https://op", q.now+10, "k"))
		q.param(v, spoilt, "client_assertion_type", goidc.ClientAssertionTypeJWT, "x")
	}
	set := func(k, right, wrong string) { q.param(v, spoilt, k, right, wrong) }
	switch gt {
	case "authorization_code":
		d.sess = newSession()
		d.sess.uri, d.sess.verifier, d.sess.code = word("uri"), "v", "c"
		set("redirect_uri", d.sess.uri, "!")
		set("code", "c", "")
		set("code_challenge", "v", "w")
		set("code_challenge_method", "plain", "S256")
	case "refresh_token":
		set("refresh_token", "r", "")
	case "password":
		set("username", word("user"), "")
		set("password", word("password"), "")
		set("scope", word("asked"), "")
	case "client_credentials":
		set("scope", word("asked"), "")
	default:
		set("assertion", hsToken("sub", "https://op", q.now+10, "k"), hsToken("other", "https://op", q.now+10, "k"))
		set("scope", word("asked"), "")
	}
	if spoilt != "" {
		nd.Assume(len(v[spoilt]) > 0)
	}
	q.make = func() *server {
		return newServer(c33Policy(), func(s *server, te *goidc.TokenEndpoint) {
			te.AcceptClientSecret(meth)
			te.AcceptClientAssertion(asr)
		})
	}
	return q
}

func resourceReading() *reading {
	q := newReading(kResource)
	meth := goidc.CredentialAcceptanceMethod(nd.Choice("accept", 3))
	switch nd.Choice("header", 3) {
	case 1:
		q.header = "Bearer " + nd.StrIn("bearer", "a-z", 1, -1)
	case 2:
		q.header = "Basic eDp5"
	}
	if nd.Bool("in_body") {
		q.body.Set("access_token", nd.StrIn("body", "a-z", 0, -1))
	}
	if nd.Bool("in_query") {
		q.query.Set("access_token", nd.StrIn("query", "a-z", 0, -1))
	}
	q.make = func() *server {
		return newServer(c33Policy(), func(s *server, te *goidc.TokenEndpoint) { s.rp.AcceptAccessToken(meth) })
	}
	return q
}

func authorizeReading() *reading {
	q := newReading(kAuthorize)
	v := q.query
	post := nd.Bool("post")
	if post {
		v = q.body
	}
	names := known["/authorize"]
	k := nd.Choice("spoil", len(names)+1)
	spoilt := ""
	if k > 0 {
		spoilt = names[k-1]
	}
	set := func(k, right, wrong string) { q.param(v, spoilt, k, right, wrong) }
	text := func(n string) string { return nd.StrIn(n, textClass, 1, 200) }
	id, uri := text("client"), "https://c/"+nd.StrIn("uri", "A-Za-z0-9", 0, -1)
	q.d.client.uriOK = func(u string) bool { return u == uri }
	q.d.client.nonePolicy, q.d.client.noConsent = 1, 1
	set("client_id", id, "")
	set("redirect_uri", uri, "https://evil/")
	set("state", text("state"), "")
	set("response_mode", "form_post", "fragment")
	set("response_type", "code id_token", "token")
	set("display", "popup", "x")
	set("max_age", "1000", "x")
	set("prompt", []string{"none", "consent", "login"}[nd.Choice("prompt", 3)], "x")
	set("scope", "openid read", "read")
	set("nonce", text("nonce"), "")
	set("code_verifier", text("verifier"), "")
	set("ui_locales", text("locales"), "")
	set("login_hint", text("hint"), "")
	q.cb = &cbs{n: map[string]int{}, def: 1, login: nd.Bool("login"), from: nd.Bool("from"), match: true, authTime: nd.Int("auth_time", 0, maxTime), uid: nd.Int("uid", 0, maxT),
		code: nd.StrIn("code", codeText, 1, -1), locale: "en"}
	if !post {
		q.method = "GET"
	}
	q.make = func() *server { return newServer(c33Policy()) }
	return q
}
