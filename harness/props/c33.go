package props

import (
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/grant"
	oer "github.com/lyokato/goidc/oauth_error"
	"vharness/nd"
)

// server is a set of endpoints with the environment of the request that is
// being handled.
type server struct {
	*di // the data interface answering the current request
	now int64
	te  http.HandlerFunc

	tokens *goidc.TokenEndpoint
	rp     *goidc.ResourceProtector
	ae     *goidc.AuthorizationEndpoint
}

func newServer(pol *authorization.Policy, conf ...func(*server, *goidc.TokenEndpoint)) *server {
	s := &server{di: newDI()}
	clk := func() time.Time { return time.Unix(s.now, 0) }
	jwt.TimeFunc = clk
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(nopLogger{})
	te.SetTimeBuilder(clk)
	te.AcceptClientAssertion(true)
	te.AcceptClientSecret(goidc.FromHeaderAndPostBody)
	te.SetErrorURIBuilder(func(t oer.OAuthErrorType) string { return "https://op/" + t.String() })
	for _, g := range []*grant.GrantHandler{grant.AuthorizationCode(), grant.RefreshToken(), grant.Password(), grant.ClientCredentials(), grant.JWT()} {
		te.Support(g)
	}
	s.te, s.tokens = te.Handler(s), te
	for _, f := range conf {
		defer f(s, te)
	}
	s.rp = goidc.NewResourceProtector("realm")
	s.rp.SetLogger(nopLogger{})
	s.rp.SetTimeBuilder(clk)
	s.rp.AcceptAccessToken(goidc.FromAll)
	s.rp.SetErrorURI("https://op/error")
	s.ae = goidc.NewAuthorizationEndpoint(s, pol)
	s.ae.SetLogger(nopLogger{})
	s.ae.SetTimeBuilder(clk)
	return s
}

// step is one request with its environment.
type step struct {
	kind int
	d    *di
	cb   *cbs
	w    *recorder
	r    *http.Request
	now  int64
	ret  bool
}

const (
	kToken = iota
	kResource
	kAuthorize
	kComplete
	kCancel
)

func newStepAt(pre string, kind int) *step {
	s := &step{kind: kind, d: newDI(), w: newRecorder(), now: nd.Int(pre+".now", 1, maxTime)}
	s.d.pre = pre + "."
	s.d.issuer = "https://op"
	s.d.client = &symClient{alg: "HS256", key: []byte("k"), flowOK: true, scopeOK: true}
	s.d.info = newInfo("openid read")
	s.d.info.userId = s.d.info.id
	s.d.token, s.d.oldTok = newToken(pre+".new"), newToken(pre+".old")
	s.d.token.refresh = "r"
	return s
}

// newStep makes an arbitrary request of the kind with its environment. A lean
// one has no empty strings, and matches its environment in all or no respects.
func newStep(pre string, kind int, lean bool) *step {
	s := newStepAt(pre, kind)
	min := 0
	if lean {
		min = 1
	}
	good := !lean || nd.Bool(pre+".good")
	str := func(n string) string { return nd.StrIn(pre+"."+n, textClass, min, -1) }
	// match is what has to equal v to be accepted
	match := func(n, v string) string {
		if !lean {
			return str(n)
		}
		if good {
			return v
		}
		return "!" + v
	}
	if !lean && nd.Bool(pre+".scopes") {
		s.d.info.scope = nd.StrIn(pre+".scope", "a-z", 0, -1)
	}
	switch kind {
	case kToken:
		b := url.Values{}
		gt := []string{"authorization_code", "refresh_token", "password", "client_credentials", "urn:ietf:params:oauth:grant-type:jwt-bearer"}[nd.Choice(pre+".grant", 4)]
		b.Set("grant_type", gt)
		id := nd.StrIn(pre+".client", "a-z", 1, -1)
		switch nd.Choice(pre+".cred", 3) {
		case 0: // no credential
		case 1:
			b.Set("client_id", id)
			s.d.client.secret = str("secret")
			b.Set("client_secret", match("given", s.d.client.secret))
		case 2:
			b.Set("client_assertion_type", goidc.ClientAssertionTypeJWT)
			b.Set("client_assertion", hsToken(id, "https://op", s.now+10, "k"))
			s.d.client.assertKey = func(alg, kid string) interface{} { return []byte("k") }
		}
		switch gt {
		case "authorization_code":
			uri := str("uri")
			b.Set("redirect_uri", uri)
			b.Set("code", "c")
			s.d.sess = newSession()
			s.d.sess.uri = match("sess.uri", uri)
			s.d.sess.verifier = []string{"", "v"}[nd.Choice(pre+".verifier", 2)]
			b.Set("code_challenge", match("challenge", "v"))
			b.Set("code_challenge_method", "plain")
		case "refresh_token":
			b.Set("refresh_token", "r")
		case "password":
			b.Set("username", str("user"))
			b.Set("password", "p")
			b.Set("scope", str("asked"))
		case "client_credentials":
			b.Set("scope", str("asked"))
		}
		if lean {
			s.d.info.clientId = match("info.client", id)
			s.d.token.created = s.now
		}
		s.r = newReq("POST", "/token", b, nil)
	case kResource:
		s.r = newReq("GET", "/resource", nil, url.Values{"access_token": {str("token")}})
	case kAuthorize:
		q := url.Values{}
		q.Set("client_id", "client")
		q.Set("redirect_uri", "https://c/"+nd.StrIn(pre+".uri", "A-Za-z0-9", 0, -1))
		q.Set("response_type", []string{"code", "id_token token"}[nd.Choice(pre+".type", 2)])
		q.Set("scope", "openid")
		q.Set("state", str("state"))
		q.Set("nonce", nd.StrIn(pre+".nonce", textClass, min, 200))
		q.Set("prompt", []string{"", "none", "login"}[nd.Choice(pre+".prompt", 3)])
		s.d.client.nonePolicy, s.d.client.noConsent = 1, 1
		s.r = newReq("GET", "/authorize", nil, q)
	case kComplete, kCancel:
		s.r = newReq("POST", "/continue", nil, nil)
	}
	if kind >= kAuthorize {
		s.cb = &cbs{n: map[string]int{}, def: 1, login: good && (lean || nd.Bool(pre+".login")), from: true, match: true, authTime: nd.Int(pre+".auth_time", 0, maxTime), uid: nd.Int(pre+".uid", 0, maxT),
			code: nd.StrIn(pre+".code", codeText, 1, -1), locale: "en"}
	}
	if kind >= kComplete {
		s.cb.req = &authorization.Request{
			Flow:         &flow.Flow{Type: flow.AuthorizationCode},
			ClientId:     str("req.client"),
			RedirectURI:  "https://c/" + nd.StrIn(pre+".req.uri", "A-Za-z0-9", 0, -1),
			Scope:        str("req.scope"),
			ResponseMode: []string{"query", "form_post"}[nd.Choice(pre+".req.mode", 2)],
			State:        str("req.state"),
			Nonce:        str("req.nonce"),
		}
		if nd.Bool(pre + ".req.idt") {
			s.cb.req.Flow = &flow.Flow{Type: flow.Hybrid, RequireIdToken: true}
		}
	}
	return s
}

// handle runs the request, restoring the environment of an interrupted one.
func (sv *server) handle(s *step) string {
	d, now := sv.di, sv.now
	sv.di, sv.now = s.d, s.now
	sv.serve(s)
	sv.di, sv.now = d, now
	return s.digest()
}

// before handles the request before another: once, or, if something of it
// stays, often.
func (sv *server) before(s *step) {
	sv.di, sv.now = s.d, s.now
	if !nd.Wrote(s, sv, func() { sv.serve(s) }) {
		return
	}
	nd.Reach("again")
	for i := 1; i < 12; i++ {
		s.w = newRecorder()
		s.d.asked = 0
		sv.serve(s)
	}
}

func (sv *server) serve(s *step) {
	switch s.kind {
	case kToken:
		sv.te(s.w, s.r)
	case kResource:
		s.ret = sv.rp.ValidateWithScopes(s.w, s.r, sv, map[string][]string{"/resource": {"read"}})
	case kAuthorize:
		s.ret = sv.ae.HandleRequest(s.w, s.r, s.cb)
	case kComplete:
		s.ret = sv.ae.CompleteRequest(s.w, s.r, s.cb)
	case kCancel:
		s.ret = sv.ae.CancelRequest(s.w, s.r, s.cb)
	}
}

// digest is everything the request led to.
func (s *step) digest() string {
	o := strconv.Itoa(s.w.status) + " " + strconv.FormatBool(s.ret)
	add := func(h http.Header, pre string) {
		var ks []string
		for k := range h {
			if strings.HasPrefix(k, pre) {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			for _, v := range h[k] {
				o += "\n" + k + ": " + v
			}
		}
	}
	add(s.w.snap, "")
	if s.kind == kResource {
		// what the application is told about the token
		add(s.r.Header, "X-Oauth-")
	}
	if s.kind >= kAuthorize && s.w.status == 200 {
		_, fields, ok := splitForm(s.w.body)
		o += strconv.FormatBool(ok)
		// the order of the fields is not defined
		sort.Slice(fields, func(i, j int) bool { return fields[i].k < fields[j].k })
		for _, f := range fields {
			o += "\n" + f.k + "=" + f.v
		}
	} else {
		o += "\n" + s.w.body
	}
	for _, c := range s.d.calls {
		o += "\n" + c.name
		for _, x := range c.s {
			o += "," + x
		}
		for _, x := range c.i {
			o += "," + strconv.FormatInt(x, 10)
		}
		if a, ok := c.o2.(*authorization.Session); ok {
			o += "," + a.Code + "," + a.RedirectURI + "," + a.Nonce + "," + a.CodeVerifier + "," + strconv.FormatInt(a.AuthTime, 10) + "," + strconv.FormatInt(a.ExpiresIn, 10)
		}
	}
	if s.cb != nil {
		for _, c := range s.cb.calls {
			o += "\n" + c
		}
		for _, l := range s.cb.localesAsked {
			o += "\nlocales " + l
		}
		for _, m := range s.cb.matchAsked {
			o += "\nmatch " + m
		}
		for _, e := range s.cb.errs {
			o += "\nerror " + strconv.Itoa(e)
		}
		for _, q := range append(append([]*authorization.Request(nil), s.cb.logins...), s.cb.consents...) {
			o += "\n" + q.ClientId + "," + q.Scope + "," + q.RedirectURI + "," + q.ResponseMode + "," + q.State + "," + q.Nonce + "," + q.Prompt + "," + q.UILocale +
				"," + q.Display + "," + q.CodeVerifier + "," + q.LoginHint + "," + q.IdTokenHint + "," + strconv.FormatInt(q.MaxAge, 10)
		}
	}
	return o
}

func c33Policy() *authorization.Policy {
	return &authorization.Policy{
		MaxMaxAge: 1 << 40, MinMaxAge: 1, MaxNonceLength: 1 << 30, MaxCodeVerifierLength: 1 << 30,
		ConsentOmissionPeriod: 3600, AuthSessionExpiresIn: 60, IdTokenExpiresIn: 600,
		DefaultAuthorizationCodeFlowResponseMode: "query",
		DefaultImplicitFlowResponseMode:          "fragment",
		IgnoreInvalidResponseMode:                true,
	}
}

// credStep: a token or resource request with credentials in any places.
func credStep(pre string, kind int) *step {
	s := newStepAt(pre, kind)
	secret := "s"
	b, q, hdr := url.Values{}, url.Values{}, ""
	in := func(place string) bool { return nd.Bool(pre + "." + place) }
	good := func(place string) string { return []string{secret, "!"}[nd.Choice(pre+"."+place+".good", 2)] }
	if kind == kToken {
		b.Set("grant_type", "client_credentials")
		s.d.client.secret = secret
		s.d.client.assertKey = func(alg, kid string) interface{} { return []byte("k") }
		if in("header") {
			hdr = basicHeader("h", good("header"))
		}
		if in("body") {
			b.Set("client_id", "b")
			b.Set("client_secret", good("body"))
		}
		if in("query") {
			q.Set("client_id", "q")
			q.Set("client_secret", good("query"))
		}
		if in("assertion") {
			b.Set("client_assertion_type", goidc.ClientAssertionTypeJWT)
			b.Set("client_assertion", hsToken("a", "https://op", s.now+10, "k"))
		}
		s.r = newReq("POST", "/token", b, q)
	} else {
		if in("header") {
			hdr = "Bearer h"
		}
		if in("body") {
			b.Set("access_token", "b")
		}
		if in("query") {
			q.Set("access_token", "q")
		}
		s.r = newReq("POST", "/resource", b, q)
	}
	if hdr != "" {
		s.r.Header.Set("Authorization", hdr)
	}
	return s
}

// credentials: where the credentials of one request are does not matter to
// another, however the server is set up.
func credentials(kind int) {
	now := nd.Int("now", 1, maxTime)
	meth, asr := goidc.CredentialAcceptanceMethod(nd.Choice("accept", 3)), nd.Bool("assertions")
	conf := func(s *server, te *goidc.TokenEndpoint) {
		te.AcceptClientSecret(meth)
		te.AcceptClientAssertion(asr)
		s.rp.AcceptAccessToken(meth)
	}
	a, b := credStep("a", kind), credStep("b", kind)
	a.now, b.now = now, now
	alone := nd.Alone(func() string { return newServer(c33Policy(), conf).handle(b) })
	sv := newServer(c33Policy(), conf)
	sv.before(a)
	nd.Assert(sv.handle(b) == alone, "the second request is answered as it would be alone")
	nd.Reach("status " + strconv.Itoa(b.w.status))
}

func C33_secrets() { credentials(kToken) }
func C33_bearers() { credentials(kResource) }

// pair: the answer to the second request is the same alone, after the first,
// and with the first handled while the second waits for the data interface.
func pair(k1, k2 int) {
	a, b := newStep("a", k1, nd.Tier() == 0), newStep("b", k2, nd.Tier() == 0 && k1 != k2)
	a.d.def, b.d.def = 1, 5
	b.d.faultAt = nd.Choice("b.fault", 3+nd.Tier())
	if b.d.faultAt == 0 {
		b.d.def = 1
	}
	for _, m := range []string{"FindUserId", "CreateAuthSession", "DisableSession", "FindUserIdBySubject", "RecordAssertionClaims"} {
		b.d.n[m] = errOnly(b.d.def)
	}
	alone := nd.Alone(func() string { return newServer(c33Policy()).handle(b) })
	sv := newServer(c33Policy())
	at := nd.Choice("at", 2+nd.Tier())
	if at == 0 {
		sv.before(a)
	}
	done := false
	b.d.onCall = func(n int) {
		if n == at {
			done = true
			nd.Elsewhere(func() { sv.handle(a) })
		}
	}
	got := sv.handle(b)
	nd.Assume(at == 0 || done)
	nd.Assert(got == alone, "the second request is answered as it would be alone")
	nd.Reach("at " + strconv.Itoa(at))
}

// C33_faults: what failed for one request does not matter to another.
func C33_faults() {
	k := nd.Choice("kind", 3)
	a, b := newStep("a", k, true), newStep("b", k, true)
	a.d.def = 2
	a.d.faultAt, a.d.faultKind = 1+nd.Choice("fault", 3+nd.Tier()), 1+nd.Choice("how", 3)
	if a.cb != nil && nd.Bool("callback") {
		a.cb.broken = []string{"ConfirmLoginSession", "GetAuthTime", "GetLoginUserId", "ShowLoginScreen", "CreateAuthorizationCode"}[nd.Choice("broken", 5)]
		a.d.faultAt = 0
	}
	alone := nd.Alone(func() string { return newServer(c33Policy()).handle(b) })
	sv := newServer(c33Policy())
	sv.before(a)
	nd.Assert(sv.handle(b) == alone, "the second request is answered as it would be alone")
	nd.Reach("status " + strconv.Itoa(b.w.status))
}

func C33_token()     { pair(kToken, kToken) }
func C33_resource()  { pair(kResource, kResource) }
func C33_authorize() { pair(kAuthorize, kAuthorize) }
func C33_pending()   { pair(kComplete+nd.Choice("first", 2), kComplete+nd.Choice("second", 2)) }
func C33_mixed() {
	k := nd.Choice("second", 5)
	pair((k+1+nd.Choice("first", 4))%5, k)
}
