package props

import (
	"net/http"
	"net/url"
	"strings"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/flow"
	"vharness/nd"
)

// cbs is a recording set of authorization callbacks whose answers are inputs.
type cbs struct {
	calls []string
	// n: number of ways a callback may answer (2: with an error too)
	n   map[string]int
	def int

	login, from, match bool
	authTime, uid      int64
	code, locale       string
	req                *authorization.Request
	matchAsked         []string
	localesAsked       []string

	errs     []int
	logins   []*authorization.Request
	consents []*authorization.Request
	consentC []bridge.Client
	failed   []string
	gone     bool // Continue returned nothing
	hooks    map[string]func()
	broken   string // the callback that always fails
}

func (b *cbs) fails(name string) bool {
	b.calls = append(b.calls, name)
	if h := b.hooks[name]; h != nil {
		h()
	}
	n := b.def
	if k, ok := b.n[name]; ok {
		n = k
	}
	if name == b.broken || n > 1 && nd.Choice("callback."+name, n) == 1 {
		b.failed = append(b.failed, name)
		return true
	}
	return false
}

func (b *cbs) count(name string) int {
	n := 0
	for _, c := range b.calls {
		if c == name {
			n++
		}
	}
	return n
}

func (b *cbs) ShowErrorScreen(t int) { b.errs = append(b.errs, t) }

func (b *cbs) ShowLoginScreen(req *authorization.Request) error {
	b.logins = append(b.logins, req)
	if b.fails("ShowLoginScreen") {
		return errTest
	}
	return nil
}

func (b *cbs) ShowConsentScreen(c bridge.Client, req *authorization.Request) error {
	b.consents = append(b.consents, req)
	b.consentC = append(b.consentC, c)
	if b.fails("ShowConsentScreen") {
		return errTest
	}
	return nil
}

func (b *cbs) ChooseLocale(l string) (string, error) {
	b.localesAsked = append(b.localesAsked, l)
	if b.fails("ChooseLocale") {
		return "", errTest
	}
	return b.locale, nil
}

func (b *cbs) ConfirmLoginSession() (bool, error) {
	if b.fails("ConfirmLoginSession") {
		return false, errTest
	}
	return b.login, nil
}

func (b *cbs) RequestIsFromLogin() (bool, error) {
	if b.fails("RequestIsFromLogin") {
		return false, errTest
	}
	return b.from, nil
}

func (b *cbs) GetAuthTime() (int64, error) {
	if b.fails("GetAuthTime") {
		return 0, errTest
	}
	return b.authTime, nil
}

func (b *cbs) GetLoginUserId() (int64, error) {
	if b.fails("GetLoginUserId") {
		return 0, errTest
	}
	return b.uid, nil
}

func (b *cbs) CreateAuthorizationCode() (string, error) {
	if b.fails("CreateAuthorizationCode") {
		return "", errTest
	}
	return b.code, nil
}

func (b *cbs) Continue() (*authorization.Request, error) {
	if b.n["Continue"] == 3 {
		b.calls = append(b.calls, "Continue")
		switch nd.Choice("callback.Continue", 3) {
		case 1:
			b.failed = append(b.failed, "Continue")
			return nil, errTest
		case 2:
			b.gone = true
			return nil, nil
		}
		return b.req, nil
	}
	if b.fails("Continue") {
		return nil, errTest
	}
	return b.req, nil
}

func (b *cbs) LoginUserIsMatchedToSubject(sub string) (bool, error) {
	b.matchAsked = append(b.matchAsked, sub)
	if b.fails("LoginUserIsMatchedToSubject") {
		return false, errTest
	}
	return b.match, nil
}

// authCase is an authorization request in its environment.
type authCase struct {
	pol *authorization.Policy
	d   *di
	cb  *cbs
	w   *recorder
	r   *http.Request
	p   map[string]string
	now int64
	ret bool
	// how the client's ID tokens are signed (bind)
	idKey idKey
	log   *memLogger
	path  string // the request path if not /authorize
	post  bool   // parameters are in the body of a POST request
}

const (
	codeText  = "~"
	tokenText = "`"
)

// newAuth: a request for a code that passes every validation, of a client and
// user that need no more interaction. Harnesses change what they vary.
func newAuth() *authCase {
	c := &authCase{p: map[string]string{}, d: newDI(), w: newRecorder(), now: symNow()}
	c.pol = &authorization.Policy{
		MaxMaxAge: 1 << 40, MinMaxAge: 1, MaxNonceLength: 1 << 30, MaxCodeVerifierLength: 1 << 30,
		ConsentOmissionPeriod: int(nd.Int("omission", 0, maxTime)), AuthSessionExpiresIn: int(nd.Int("session_exp", 0, maxTime)),
		IdTokenExpiresIn:                         int(nd.Int("idtexp", 0, maxTime)),
		DefaultAuthorizationCodeFlowResponseMode: "query",
		DefaultImplicitFlowResponseMode:          "fragment",
		RequireResponseModeSecurityLevelCheck:    true,
		IgnoreInvalidResponseMode:                true,
	}
	c.p["client_id"] = "client"
	c.p["redirect_uri"] = bases[nd.Choice("uri.base", len(bases))] + nd.StrIn("uri", "A-Za-z0-9", 0, -1)
	c.p["response_type"] = "code"
	c.p["scope"] = "openid"
	c.p["state"] = nd.StrIn("state", textClass, 0, -1)
	c.d.client = &symClient{alg: "HS256", key: []byte("k"), flowOK: true, scopeOK: true}
	c.d.issuer = "https://op"
	c.cb = &cbs{n: map[string]int{}, def: 1, login: true, from: true, match: true, authTime: nd.Int("auth_time", 0, maxTime), uid: nd.Int("uid", 0, maxT),
		code: nd.StrIn("code", codeText, 1, -1), locale: "en"}
	return c
}

// bases are where redirect URIs of clients of several kinds begin.
var bases = []string{"https://c/", "http://localhost/", "app:/"}

func (c *authCase) uri() string { return c.p["redirect_uri"] }

// faults: every callback and data interface call may fail.
func (c *authCase) faults() {
	c.d.faulty()
	c.cb.def = 2
}

func (c *authCase) endpoint() *goidc.AuthorizationEndpoint {
	ae := goidc.NewAuthorizationEndpoint(c.d, c.pol)
	ae.SetLogger(nopLogger{})
	if c.log != nil {
		ae.SetLogger(c.log)
	}
	ae.SetTimeBuilder(setClock(c.now))
	return ae
}

func (c *authCase) run() {
	q := url.Values{}
	for k, v := range c.p {
		if v != "" {
			q.Set(k, v)
		}
	}
	if c.post {
		c.r = newReq("POST", "/authorize", q, nil)
	} else {
		c.r = newReq("GET", "/authorize", nil, q)
	}
	if c.path != "" {
		c.r.URL.Path = c.path
	}
	c.ret = c.endpoint().HandleRequest(c.w, c.r, c.cb)
}

// answer is what the user agent got: a redirect or posted form.
type answer struct {
	mode string
	v    url.Values
	ok   bool // well-formed, sent to the given URI
}

// answer reads the response sent to uri; nil if there is none.
func readAnswer(w *recorder, uri string) *answer {
	if w.status == 0 {
		return nil
	}
	if w.status == 200 {
		action, fields, ok := splitForm(w.body)
		a := &answer{mode: "form_post", v: url.Values{}, ok: ok && action == uri}
		for _, f := range fields {
			a.v.Add(f.k, f.v)
		}
		return a
	}
	loc := w.get("Location")
	if w.status != 302 || !strings.HasPrefix(loc, uri) {
		return &answer{}
	}
	rest := loc[len(uri):]
	a := &answer{ok: true}
	switch {
	case strings.HasPrefix(rest, "#"):
		a.mode = "fragment"
	case strings.HasPrefix(rest, "?"), strings.HasPrefix(rest, "&"):
		a.mode = "query"
	default:
		return &answer{}
	}
	v, err := url.ParseQuery(rest[1:])
	a.v = v
	a.ok = err == nil
	return a
}

func (c *authCase) answer() *answer { return readAnswer(c.w, c.uri()) }

// screens: number of screens of any kind shown.
func (c *authCase) screens() int { return len(c.cb.errs) + len(c.cb.logins) + len(c.cb.consents) }

// artifacts: some artifact was delivered or created.
func (c *authCase) artifacts() bool {
	if a := c.answer(); a != nil {
		for _, k := range []string{"code", "access_token", "id_token"} {
			if a.v.Has(k) {
				return true
			}
		}
	}
	return c.d.count("CreateAuthSession")+c.d.count("CreateOAuthToken")+c.d.count("CreateOrUpdateAuthInfo") > 0
}

// isErr: exactly an error redirect of the type, with the state iff not empty.
func (a *answer) isErr(typ, state string) bool {
	if a == nil || !a.ok {
		return false
	}
	ok := nd.And(len(a.v["error"]) == 1, a.v.Get("error") == typ)
	for k := range a.v {
		if k != "error" && k != "error_description" && k != "error_uri" && k != "state" {
			return false
		}
	}
	return nd.And(ok, a.hasState(state))
}

// hasState: the state is there iff not empty.
func (a *answer) hasState(state string) bool {
	s, has := a.v["state"]
	if !has {
		return state == ""
	}
	return nd.And(len(s) == 1, s[0] == state, state != "")
}

func (a *answer) err() string {
	if a == nil {
		return ""
	}
	return a.v.Get("error")
}

var responseTypes = []struct {
	rt             string
	typ            flow.FlowType
	code, tok, idt bool
}{
	{"code", flow.AuthorizationCode, true, false, false},
	{"token", flow.Implicit, false, true, false},
	{"id_token", flow.Implicit, false, false, true},
	{"id_token token", flow.Implicit, false, true, true},
	{"code token", flow.Hybrid, true, true, false},
	{"code id_token", flow.Hybrid, true, false, true},
	{"code id_token token", flow.Hybrid, true, true, true},
}

// pending makes an arbitrary pending request and returns it with its artifacts.
func (c *authCase) pending() (*authorization.Request, int) {
	k := nd.Choice("rt", len(responseTypes))
	t := responseTypes[k]
	req := &authorization.Request{
		Flow:         &flow.Flow{Type: t.typ, RequireAccessToken: t.tok, RequireIdToken: t.idt},
		ClientId:     nd.StrIn("req.client", textClass, 0, -1),
		RedirectURI:  c.uri(),
		Scope:        nd.StrIn("req.scope", textClass, 0, -1),
		ResponseMode: modes[nd.Choice("req.mode", 3)],
		State:        c.p["state"],
		CodeVerifier: nd.StrIn("req.verifier", textClass, 0, -1),
		Nonce:        nd.StrIn("req.nonce", textClass, 0, -1),
		Display:      "page",
		MaxAge:       nd.Int("req.max_age", 0, maxTime),
	}
	c.cb.req = req
	c.d.info = newInfo(nd.Str("info.scope"))
	c.d.token = newToken("new")
	c.d.client.id = "other"
	return req, k
}
