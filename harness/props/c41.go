package props

import (
	"net/http"
	"net/url"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/grant"
	oer "github.com/lyokato/goidc/oauth_error"
	"vharness/nd"
)

// threads is a data interface that answers each thread's request apart.
type threads struct{ d [2]*di }

func (t *threads) of() *di { return t.d[nd.Thread()-1] }

func (t *threads) Issuer() string { return t.of().Issuer() }
func (t *threads) FindClientById(id string) (bridge.Client, *bridge.Error) {
	return t.of().FindClientById(id)
}
func (t *threads) FindAuthSessionByCode(code string) (bridge.AuthSession, *bridge.Error) {
	return t.of().FindAuthSessionByCode(code)
}
func (t *threads) FindActiveAuthInfoById(id int64) (bridge.AuthInfo, *bridge.Error) {
	return t.of().FindActiveAuthInfoById(id)
}
func (t *threads) FindAuthInfoByUserIdAndClientId(uid int64, clientId string) (bridge.AuthInfo, *bridge.Error) {
	return t.of().FindAuthInfoByUserIdAndClientId(uid, clientId)
}
func (t *threads) FindOAuthTokenByAccessToken(s string) (bridge.OAuthToken, *bridge.Error) {
	return t.of().FindOAuthTokenByAccessToken(s)
}
func (t *threads) FindOAuthTokenByRefreshToken(s string) (bridge.OAuthToken, *bridge.Error) {
	return t.of().FindOAuthTokenByRefreshToken(s)
}
func (t *threads) CreateOAuthToken(info bridge.AuthInfo, onTokenEndpoint bool) (bridge.OAuthToken, *bridge.Error) {
	return t.of().CreateOAuthToken(info, onTokenEndpoint)
}
func (t *threads) RefreshAccessToken(info bridge.AuthInfo, token bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	return t.of().RefreshAccessToken(info, token)
}
func (t *threads) FindUserId(username, password string) (int64, *bridge.Error) {
	return t.of().FindUserId(username, password)
}
func (t *threads) CreateOrUpdateAuthInfo(uid int64, clientId, scope string) (bridge.AuthInfo, *bridge.Error) {
	return t.of().CreateOrUpdateAuthInfo(uid, clientId, scope)
}
func (t *threads) CreateAuthSession(info bridge.AuthInfo, session *authorization.Session) *bridge.Error {
	return t.of().CreateAuthSession(info, session)
}
func (t *threads) DisableSession(sess bridge.AuthSession) *bridge.Error {
	return t.of().DisableSession(sess)
}
func (t *threads) FindUserIdBySubject(sub string) (int64, *bridge.Error) {
	return t.of().FindUserIdBySubject(sub)
}
func (t *threads) RecordAssertionClaims(clientId, jti string, issuedAt, expiredAt int64) *bridge.Error {
	return t.of().RecordAssertionClaims(clientId, jti, issuedAt, expiredAt)
}

// ends are the endpoints that handle the requests.
type ends struct {
	h  http.HandlerFunc
	rp *goidc.ResourceProtector
	ae *goidc.AuthorizationEndpoint
	d  bridge.DataInterface
	// scopes is the same map for every request
	scopes map[string][]string
}

// handling is a request: its data interface, its own objects, and how it is
// handled.
type handling struct {
	d   *di
	own any
	run func(e *ends)
}

// sharedKey is the key of every client, as a store would keep it.
func sharedKey() []byte { return append(make([]byte, 0, 64), 'k') }

const (
	hGrant = iota
	hClient
	hResource
	hAuthorize
	hPending
	hKinds
)

// handled makes an arbitrary request.
func handled(kind int, key []byte) *handling {
	switch kind {
	case hGrant:
		c, _ := anyGrant()
		c.d.faulty()
		c.d.client.key = key
		if c.d.client.assertKey != nil {
			c.d.client.assertKey = func(alg, kid string) interface{} { return key }
		}
		r := newReq("POST", "/token", c.body, nil)
		r.Header.Set("Authorization", basicHeader(c.cid, ""))
		return &handling{c.d, []any{c, r}, func(e *ends) { e.h(c.w, r) }}
	case hClient:
		d, w := newDI().faulty(), newRecorder()
		may := nd.Bool("may")
		d.client = &symClient{secret: "s", grants: func(string) bool { return may }, assertKey: func(alg, kid string) interface{} { return key }}
		d.issuer = "https://op"
		d.token, d.info = newToken("new"), newInfo("read")
		p := func(n string) url.Values {
			return url.Values{"client_id": {"c"}, "client_secret": {[]string{"s", "x"}[nd.Choice(n, 2)]}}
		}
		body, q, hdr := url.Values{}, url.Values{}, ""
		switch nd.Choice("how", 6) {
		case 0:
			hdr = basicHeader("c", []string{"s", "x"}[nd.Choice("right", 2)])
		case 1:
			hdr = []string{"Basic %%%", "Basic eHl6", "Bearer x"}[nd.Choice("header", 3)]
		case 2:
			body = p("body")
		case 3:
			q = p("query")
		case 4:
			body.Set("client_assertion_type", nd.StrIn("assertion_type", textClass, 0, -1))
			body.Set("client_assertion", []string{"x", hsToken("c", "https://op", nd.Int("exp", 0, maxTime), "k")}[nd.Choice("assertion", 2)])
		}
		body.Set("grant_type", nd.StrIn("grant_type", textClass, 0, -1))
		r := newReq([]string{"POST", "GET", "PUT"}[nd.Choice("method", 3)], "/token", body, q)
		if hdr != "" {
			r.Header.Set("Authorization", hdr)
		}
		return &handling{d, []any{d, w, r}, func(e *ends) { e.h(w, r) }}
	case hResource:
		d, w := newDI().faulty(), newRecorder()
		d.oldTok, d.info = newToken("tok"), newInfo([]string{"openid read", "", "write"}[nd.Choice("scope", 3)])
		body := url.Values{}
		if nd.Bool("in_body") {
			body.Set("access_token", nd.StrIn("token", textClass, 0, -1))
		}
		r := newReq("POST", "/x", body, nil)
		switch nd.Choice("header", 4) {
		case 1:
			r.Header.Set("Authorization", "Bearer "+nd.StrIn("bearer", "!#-[]-~", 0, -1))
		case 2:
			r.Header.Set("Authorization", "Basic eDp5")
		case 3:
			r.Header.Set("Authorization", nd.StrIn("scheme", "A-Za-z", 0, -1))
		}
		plain := nd.Bool("plain")
		return &handling{d, []any{d, w, r}, func(e *ends) {
			if plain {
				e.rp.Validate(w, r, e.d)
			} else {
				e.rp.ValidateWithScopes(w, r, e.d, e.scopes)
			}
		}}
	case hAuthorize:
		c := newAuth()
		spoilt := nd.Choice("spoilt", 8)
		if spoilt == 0 || nd.Tier() > 0 {
			c.eventful()
		}
		c.d.client.key = key
		switch spoilt {
		case 1:
			c.p["scope"] = ""
		case 2:
			c.p["display"] = "x"
		case 3:
			c.p["prompt"] = "none login"
		case 4:
			c.p["max_age"] = "x"
		case 5:
			c.d.client.scopeOK = false
		case 6:
			c.d.client.flowOK = false
		case 7:
			c.p["response_type"] = []string{"code", "id_token", "code token", "x"}[nd.Choice("type", 4)]
			c.p["response_mode"] = []string{"", "form_post", "x"}[nd.Choice("response_mode", 3)]
		}
		q := url.Values{}
		for k, v := range c.p {
			if v != "" {
				q.Set(k, v)
			}
		}
		r := newReq("GET", "/authorize", nil, q)
		return &handling{c.d, []any{c, r}, func(e *ends) { e.ae.HandleRequest(c.w, r, c.cb) }}
	default:
		c := newAuth()
		c.pending()
		c.d.faulty()
		c.d.client.key = key
		c.cb.def = 2
		c.cb.n["Continue"] = 3
		r := newReq("POST", "/a", nil, nil)
		cancel := nd.Bool("cancel")
		return &handling{c.d, []any{c, r}, func(e *ends) {
			if cancel {
				e.ae.CancelRequest(c.w, r, c.cb)
			} else {
				e.ae.CompleteRequest(c.w, r, c.cb)
			}
		}}
	}
}

// newEnds: endpoints as they are configured, or as they are by default.
func newEnds(conf int, logged bool) (*ends, *threads) {
	d := &threads{}
	pol := authorization.DefaultPolicy()
	if conf == 0 {
		pol = &authorization.Policy{MaxMaxAge: 1 << 40, MaxNonceLength: 1 << 30, MaxCodeVerifierLength: 1 << 30}
	}
	te := goidc.NewTokenEndpoint("realm")
	rp := goidc.NewResourceProtector("realm")
	ae := goidc.NewAuthorizationEndpoint(d, pol)
	if !logged {
		te.SetLogger(nopLogger{})
		rp.SetLogger(nopLogger{})
		ae.SetLogger(nopLogger{})
	}
	clk := setClock(symNow())
	te.SetTimeBuilder(clk)
	rp.SetTimeBuilder(clk)
	ae.SetTimeBuilder(clk)
	if conf == 1 {
		te.AcceptClientAssertion(true)
		te.AcceptClientSecret(goidc.FromAll)
		te.SetErrorURIBuilder(func(t oer.OAuthErrorType) string { return "https://op/" + t.String() })
		rp.AcceptAccessToken(goidc.FromAll)
		rp.SetErrorURI("https://op/error")
	}
	for _, g := range []*grant.GrantHandler{grant.AuthorizationCode(), grant.RefreshToken(), grant.Password(), grant.ClientCredentials(), grant.JWT()} {
		te.Support(g)
	}
	return &ends{te.Handler(d), rp, ae, d, map[string][]string{"/x": {"read"}}}, d
}

// race: two requests handled at the same time by the same endpoints.
func race(k1 int, k2 func() int, logged bool) {
	conf := nd.Choice("conf", 2)
	nd.Race(func() (nd.Thr, nd.Thr) {
		e, d := newEnds(conf, logged)
		key := sharedKey()
		thr := func(i int, kind func() int) nd.Thr {
			return func() (func(), any) {
				c := handled(kind(), key)
				d.d[i] = c.d
				return func() { c.run(e) }, c.own
			}
		}
		return thr(0, func() int { return k1 }), thr(1, k2)
	})
}

func same(k int) { race(k, func() int { return k }, false) }

func C41_grant()     { same(hGrant) }
func C41_client()    { same(hClient) }
func C41_resource()  { same(hResource) }
func C41_authorize() { same(hAuthorize) }
func C41_pending()   { same(hPending) }

// C41_mixed: different endpoints, or requests, with the default logger.
func C41_mixed() {
	nd.Capture(func() {
		k := nd.Choice("first", hKinds)
		race(k, func() int { return (k + 1 + nd.Choice("second", hKinds-1)) % hKinds }, true)
	})
}

func C41_keys() {
	nd.Race(func() (nd.Thr, nd.Thr) {
		je := goidc.NewJWKEndpoint()
		je.AddFromText("kid", nd.PEM(0, 0, "PUBLIC KEY"))
		h := je.Handler()
		thr := func() (func(), any) {
			w, r := newRecorder(), newReq("GET", "/keys", nil, nil)
			return func() { h(w, r) }, []any{w, r}
		}
		return thr, thr
	})
}
