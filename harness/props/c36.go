package props

import (
	"net/url"
	"strings"

	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/grant"
	"vharness/nd"
)

// secret: a text of characters that occur in no other text of the request.
func secret(name string) string { return nd.StrIn(name, tokenClass, 1, -1) }

// jwtStart is how every JWT begins.
const jwtStart = "eyJ"

func (l *memLogger) clean() {
	nd.Assert(!l.has("~") && !l.has("`"), "no secret is logged")
	if len(l.lines) > 0 {
		nd.Reach("lines")
	}
}

// sent: no line has the value of the Authorization header.
func (l *memLogger) sent(hdr string) {
	r := false
	for _, s := range l.lines {
		r = nd.Or(r, nd.Made(s, strings.TrimPrefix(hdr, "Basic ")))
	}
	nd.Assert(!r, "no credential is logged as it was sent")
}

// C36_grants: every grant, with everything it may meet.
func C36_grants() {
	c, _ := anyGrant()
	c.d.faulty()
	log := &memLogger{}
	c.te.SetLogger(log)
	sec := secret("client_secret")
	c.d.client.secret = sec
	if c.body.Has("password") {
		c.body.Set("password", secret("password"))
	}
	r := newReq("POST", "/token", c.body, nil)
	r.Header.Set("Authorization", basicHeader(c.cid, sec))
	c.te.Handler(c.d)(c.w, r)
	log.clean()
	log.sent(basicHeader(c.cid, sec))
	if isTokenResponse(c.w) {
		nd.Reach("token")
	}
}

// C36_credentials: right and wrong secrets, wherever they are.
func C36_credentials() {
	te := goidc.NewTokenEndpoint("realm")
	log := &memLogger{}
	te.SetLogger(log)
	te.AcceptClientSecret(acceptMethod())
	te.AcceptClientAssertion(nd.Bool("assertion"))
	p := &probe{typ: "g", fails: nd.Bool("grant_fails")}
	te.Support(p.handler())
	id, sec := nd.StrIn("client_id", " !#-9;-Z_a-}", 0, -1), secret("client_secret")
	body, query := url.Values{}, url.Values{}
	body.Set("grant_type", nd.StrIn("grant_type", textClass, 0, -1))
	hdr := ""
	switch nd.Choice("where", 5) {
	case 0:
		hdr = basicHeader(id, sec)
	case 1:
		body.Set("client_id", id)
		body.Set("client_secret", sec)
	case 2:
		query.Set("client_id", id)
		query.Set("client_secret", sec)
	case 3:
		body.Set("client_id", id)
		body.Set("client_secret", sec)
		query.Set("client_secret", secret("other_secret"))
		hdr = basicHeader(id, secret("header_secret"))
	case 4:
		body.Set("client_secret", sec)
	}
	r := newReq([]string{"POST", "GET"}[nd.Choice("method", 2)], "/token", body, query)
	if hdr != "" {
		r.Header.Set("Authorization", hdr)
	}
	d := newDI()
	d.def = 5
	d.client = &symClient{secret: secret("registered")}
	may := nd.Bool("may")
	d.client.grants = func(string) bool { return may }
	te.Handler(d)(newRecorder(), r)
	log.clean()
	log.sent(hdr)
	if p.runs > 0 {
		nd.Reach("authenticated")
	}
}

// C36_assertion: authentication and grant by assertions.
func C36_assertion() {
	te := goidc.NewTokenEndpoint("realm")
	log := &memLogger{}
	te.SetLogger(log)
	te.AcceptClientAssertion(true)
	te.Support(grant.JWT())
	te.Support(grant.Password())
	now := symNow()
	te.SetTimeBuilder(setClock(now))
	d := newDI().faulty()
	d.client = &symClient{scopeOK: true, owner: 1, assertKey: func(alg, kid string) interface{} { return []byte("k") }}
	d.issuer = "https://op"
	d.info = newInfo(nd.StrIn("info.scope", textClass, 0, -1))
	d.token = newToken("new")
	token := func(name string) string {
		m := jwt.MapClaims{"aud": []string{"https://op", "x"}[nd.Choice(name+".aud", 2)], "exp": now + nd.Int(name+".exp", -1, 1)}
		if nd.Bool(name + ".has_sub") {
			m["sub"] = nd.StrIn(name+".sub", textClass, 0, -1)
		}
		s, _ := jwt.NewWithClaims(jwt.SigningMethodHS256, m).SignedString([]byte("k"))
		return s
	}
	body := url.Values{}
	if nd.Bool("password") {
		body.Set("grant_type", "password")
		body.Set("username", nd.StrIn("username", textClass, 0, -1))
		body.Set("password", secret("user_password"))
	} else {
		body.Set("grant_type", grant.TypeJWT)
		body.Set("assertion", token("grant"))
	}
	body.Set("client_assertion", token("client"))
	body.Set("client_assertion_type", jwtBearer)
	// a secret that is not accepted there
	body.Set("client_secret", secret("client_secret"))
	w := newRecorder()
	te.Handler(d)(w, newReq("POST", "/token", body, nil))
	log.clean()
	if isTokenResponse(w) {
		nd.Reach("token")
	}
}

// C36_id_token: the ID token of a code.
func C36_id_token() {
	c := newTok(grant.AuthorizationCode())
	log := &memLogger{}
	c.te.SetLogger(log)
	d := c.d
	d.n["CreateOAuthToken"] = 5
	d.n["DisableSession"] = 4
	d.info = newInfo([]string{"openid", "openid offline_access"}[nd.Choice("scope", 2)])
	d.info.clientId = nd.StrIn("info.client", "a-z0-9", 1, -1)
	c.cid = d.info.clientId
	d.sess = newSession()
	d.token = newToken("new")
	d.sess.uri = "https://" + nd.StrIn("uri", "a-z0-9", 0, -1)
	d.sess.verifier = ""
	nd.Assume(c.now <= d.sess.created+d.sess.exp)
	c.body.Set("redirect_uri", d.sess.uri)
	c.body.Set("code", nd.StrIn("code", "a-z0-9", 1, -1))
	d.client.alg = []string{"HS256", "RS256", "none"}[nd.Choice("alg", 3)]
	d.client.key = []interface{}{[]byte("k"), nd.RSAKey(0), nil}[nd.Choice("key", 3)]
	c.run()
	log.clean()
	nd.Assert(!log.has(jwtStart), "no ID token is logged")
	if isTokenResponse(c.w) {
		t, ok := c.response()
		nd.Assert(ok && t.IdToken != nil, "an ID token was sent")
		nd.Reach("ID token")
	}
}

// C36_authorize: handling of authorization requests.
func C36_authorize() {
	c := newAuth()
	c.eventful()
	c.log = &memLogger{}
	c.run()
	c.issued()
}

// C36_complete: completion of authorization requests.
func C36_complete() {
	c := newAuth()
	c.pending()
	c.d.def, c.cb.def = 5, 2
	c.d.n["CreateAuthSession"] = 4 // it returns nothing but an error
	c.d.client.alg = []string{"HS256", "bogus"}[nd.Choice("alg", 2)]
	c.log = &memLogger{}
	c.ret = c.endpoint().CompleteRequest(c.w, consentReq(), c.cb)
	c.issued()
}

func (c *authCase) issued() {
	c.log.clean()
	nd.Assert(!c.log.has(jwtStart), "no ID token is logged")
	if a := c.answer(); a != nil && a.ok && a.err() == "" {
		nd.Reach("issued")
	}
}
