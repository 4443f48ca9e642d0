package props

import (
	"net/url"
	"time"

	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/grant"
	"vharness/nd"
)

var grants = []func() *grant.GrantHandler{grant.AuthorizationCode, grant.RefreshToken, grant.Password, grant.ClientCredentials, grant.JWT}

// C43_token: a token endpoint to which grants were added at most.
func C43_token() {
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(nopLogger{})
	added := nd.Bool("added")
	p := &probe{typ: "g"}
	if added {
		te.Support(p.handler())
	}
	d := newDI()
	d.client = &symClient{secret: nd.StrIn("secret", textClass, 0, -1), assertKey: func(alg, kid string) interface{} { return []byte("k") }}
	d.issuer = "https://op"
	now := symNow()
	te.SetTimeBuilder(setClock(now))
	body, query := url.Values{}, url.Values{}
	gt := "g"
	if !added {
		gt = nd.StrIn("grant_type", textClass, 0, -1)
		if k := nd.Choice("grant", 6); k < 5 {
			gt = grants[k]().Type
		}
	}
	body.Set("grant_type", gt)
	id, sec := nd.StrIn("id", "a-z", 1, -1), nd.StrIn("given", textClass, 1, -1)
	put := func(v url.Values) {
		v.Set("client_id", id)
		v.Set("client_secret", sec)
	}
	header := false
	switch nd.Choice("credential", 5) {
	case 0:
		header = true
	case 1:
		put(body)
	case 2:
		put(query)
	case 3:
		body.Set("client_assertion_type", goidc.ClientAssertionTypeJWT)
		body.Set("client_assertion", hsToken(id, "https://op", now+10, "k"))
	}
	r := newReq("POST", "/token", body, query)
	if header {
		r.Header.Set("Authorization", basicHeader(id, sec))
	}
	w := newRecorder()
	te.Handler(d)(w, r)
	switch {
	case !added:
		nd.Assert(w.status == 400 && len(d.calls) == 0, "no grant is supported unless it is added")
		nd.Reach("no grant")
	case header && sec == d.client.secret:
		nd.Assert(w.status == 200 && p.runs == 1, "secrets are taken from the Authorization header")
		nd.Reach("header")
	default:
		nd.Assert(w.status == 401 && p.runs == 0 && (header || len(d.calls) == 0), "secrets elsewhere, and assertions, are not taken unless that is configured")
		nd.Reach("refused")
	}
	if w.status >= 400 {
		m, ok := jsonBody(w)
		nd.Assert(ok && !hasKey(m, "error_uri"), "errors have no URI unless one is configured")
	}
}

// C43_resource: a resource protector as it is made.
func C43_resource() {
	rp := goidc.NewResourceProtector("realm")
	rp.SetLogger(nopLogger{})
	rp.SetTimeBuilder(setClock(symNow()))
	d := newDI()
	d.oldTok, d.info = newToken("tok"), newInfo("read")
	body, query := url.Values{}, url.Values{}
	if nd.Bool("body") {
		body.Set("access_token", nd.StrIn("in_body", textClass, 0, -1))
	}
	if nd.Bool("query") {
		query.Set("access_token", nd.StrIn("in_query", textClass, 0, -1))
	}
	r := newReq([]string{"GET", "POST"}[nd.Choice("method", 2)], "/x", body, query)
	w := newRecorder()
	ok := rp.Validate(w, r, d)
	nd.Assert(!ok && w.status == 400 && len(d.calls) == 0, "tokens are taken from the Authorization header only, unless configured otherwise")
	nd.Reach("refused")
}

// C43_policy: authorization requests under the default policy.
func C43_policy() {
	c := newAuth()
	strict := &authorization.Policy{
		MaxMaxAge: 86400, MinMaxAge: 60,
		MaxNonceLength: 255, MaxCodeVerifierLength: 255,
		ConsentOmissionPeriod: 86400, AuthSessionExpiresIn: 60, IdTokenExpiresIn: 86400,
		DefaultAuthorizationCodeFlowResponseMode: "query",
		DefaultImplicitFlowResponseMode:          "fragment",
		IgnoreInvalidResponseMode:                true,
		RequireResponseModeSecurityLevelCheck:    true,
	}
	mine := authorization.DefaultPolicy()
	mine.AllowEmptyScope, mine.RequireResponseModeSecurityLevelCheck, mine.MinMaxAge = true, false, 0
	c.d.info, c.d.token = newInfo("openid"), newToken("new")
	c.d.client.nonePolicy, c.d.client.noConsent = 1, 1
	run := func() { c.run() }
	if nd.Bool("complete") {
		req, _ := c.pending()
		c.bind(req)
		run = func() {
			c.ret = c.endpoint().CompleteRequest(c.w, consentReq(), c.cb)
		}
	} else {
		// quick: some of the parameters at a time
		vary := nd.Choice("vary", 4)
		if nd.Tier() > 0 {
			vary = -1
		}
		pick := func(k int, name, base string, others ...string) {
			c.p[name] = base
			if vary < 0 || vary == k {
				c.p[name] = append([]string{base}, others...)[nd.Choice(name, len(others)+1)]
			}
		}
		c.p["response_type"] = []string{"code", "id_token token", "code token"}[nd.Choice("rt", 3)]
		pick(0, "response_mode", "", "query", "fragment", "form_post", "bogus")
		pick(1, "scope", "openid", "", "offline_access openid", "read")
		c.p["prompt"] = []string{"", "none", "consent"}[nd.Choice("prompt", 3)]
		pick(2, "max_age", "", "59", "60", "86400", "86401")
		c.p["nonce"] = nd.StrIn("nonce", textClass, 1, 200)
		if vary < 0 || vary == 3 {
			switch nd.Choice("long", 3) {
			case 0:
				c.p["nonce"] = nd.StrIn("long_nonce", textClass, 250, 260)
			case 1:
				c.p["code_verifier"] = nd.StrIn("verifier", textClass, 250, 260)
			case 2:
				c.p["nonce"] = ""
			}
		}
		c.cb.login = nd.Bool("login")
	}
	c.pol = strict
	want := nd.Alone(func() string { run(); return c.outcome() })
	c.pol = authorization.DefaultPolicy()
	run()
	nd.Assert(c.outcome() == want, "the default policy is the documented one")
	switch a := c.answer(); {
	case a == nil:
		nd.Reach("screen")
	case a.err() != "":
		nd.Reach("error " + a.err())
	default:
		nd.Reach("completed")
	}
}

// C43_clock: unless configured otherwise, requests are judged at the system's
// time when they come.
func C43_clock() {
	jwt.TimeFunc = time.Now
	now := nd.SystemTime("now")
	d := newDI()
	d.issuer = "https://op"
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(nopLogger{})
	for _, g := range grants {
		te.Support(g())
	}
	h := te.Handler(d)
	rp := goidc.NewResourceProtector("realm")
	rp.SetLogger(nopLogger{})
	pol := authorization.DefaultPolicy()
	ae := goidc.NewAuthorizationEndpoint(d, pol)
	ae.SetLogger(nopLogger{})
	nd.Wait()
	// left is how long something is good at the start: it has ended by now, or
	// will not end soon
	left := nd.Int("left", -1000000, 1000000)
	nd.Assume(left <= 1 || left > 1000)
	dead := left <= 1
	life := nd.Int("life", 0, maxTime)
	d.client = &symClient{alg: "HS256", key: []byte("k"), flowOK: true, scopeOK: true, grants: func(string) bool { return true }}
	d.info = newInfo("openid offline_access")
	d.token, d.oldTok = newToken("new"), newToken("old")
	w := newRecorder()
	soon := func(m map[string]interface{}, k string, off int64) bool {
		f, ok := m[k].(float64)
		return ok && int64(f) >= now+2+off && int64(f) <= now+60+off
	}
	switch k := nd.Choice("what", 5); k {
	case 0:
		d.oldTok.accessExp, d.oldTok.refreshed = life, now+left-life
		r := newReq("GET", "/x", nil, nil)
		r.Header.Set("Authorization", "Bearer t")
		nd.Assert(rp.Validate(w, r, d) == !dead, "a token is live by the system's time")
	case 1, 2:
		body := url.Values{"redirect_uri": {"u"}, "code": {"c"}, "refresh_token": {"r"}}
		if k == 1 {
			body.Set("grant_type", grant.AuthorizationCode().Type)
			d.sess = newSession()
			d.sess.uri, d.sess.verifier = "u", ""
			d.sess.exp, d.sess.created = life, now+left-life
			d.sess.idtExp = 600
		} else {
			body.Set("grant_type", grant.RefreshToken().Type)
			d.oldTok.refExp, d.oldTok.created = life, now+left-life
		}
		d.info.clientId = d.client.id
		r := newReq("POST", "/token", body, nil)
		r.Header.Set("Authorization", basicHeader(d.client.id, d.client.secret))
		h(w, r)
		nd.Assert((w.status == 200) == !dead, "a code or refresh token is live by the system's time")
		if k == 1 && w.status == 200 {
			m, _ := jsonBody(w)
			_, cl, ok := readIdToken(jstr(m, "id_token"), idKey{alg: "HS256", verify: []byte("k")})
			nd.Assert(ok && soon(cl, "iat", 0) && soon(cl, "exp", 600), "an ID token is issued at the system's time")
		}
	case 3:
		c := &cbs{n: map[string]int{}, def: 1, login: true, from: true, match: true, authTime: now + left - 3600, uid: 1, code: "~", locale: "en"}
		q := url.Values{"client_id": {"c"}, "redirect_uri": {"https://c/"}, "response_type": {"code"}, "scope": {"openid"}, "max_age": {"3600"}}
		ae.HandleRequest(w, newReq("GET", "/authorize", nil, q), c)
		nd.Assert(len(c.logins) == 1 == dead && len(c.consents) == 1 == !dead, "the age of an authentication is taken at the system's time")
	case 4:
		c := &cbs{n: map[string]int{}, def: 1, login: true, from: true, match: true, authTime: now, uid: 1, code: "~", locale: "en"}
		c.req = &authorization.Request{ClientId: "c", RedirectURI: "https://c/", ResponseMode: "query", Scope: "openid", Nonce: "n", Flow: &flow.Flow{Type: flow.Implicit, RequireIdToken: true}}
		ae.CompleteRequest(w, consentReq(), c)
		a := readAnswer(w, "https://c/")
		nd.Assert(a != nil && a.ok, "the request is completed")
		if a != nil && a.ok {
			_, cl, ok := readIdToken(a.v.Get("id_token"), idKey{alg: "HS256", verify: []byte("k")})
			nd.Assert(ok && soon(cl, "iat", 0) && soon(cl, "exp", 86400), "an ID token is issued at the system's time")
		}
	}
	if dead {
		nd.Reach("dead")
	} else {
		nd.Reach("live")
	}
}
