package props

import (
	"net/url"

	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/grant"
	"github.com/lyokato/goidc/pkce"
	"vharness/nd"
)

// anyGrant: one of the library's grants with a request that may succeed. The
// store hands out d.token for d.info.
func anyGrant() (c *tokCase, creates string) {
	creates = "CreateOAuthToken"
	k := nd.Choice("grant", 5)
	switch k {
	case 0:
		c = newTok(grant.AuthorizationCode(), "redirect_uri", "code", "code_challenge", "code_challenge_method")
		c.d.sess = newSession()
		if nd.Bool("pkce") {
			v := nd.StrIn("verifier", textClass, 1, -1)
			c.d.sess.verifier = v
			if nd.Bool("s256") {
				nd.Assume(nd.And(c.p["code_challenge"] == pkce.S256Encode(v), c.p["code_challenge_method"] == "S256"))
			}
		} else {
			c.d.sess.verifier = ""
		}
	case 1:
		c = newTok(grant.ClientCredentials(), "scope")
		c.d.client.owner = nd.Int("owner", -1, maxT)
	case 2:
		c = newTok(grant.Password(), "username", "password", "scope")
		c.d.uid = nd.Int("uid", 0, maxT)
	case 3:
		c = newTok(grant.RefreshToken(), "refresh_token")
		c.d.oldTok = newToken("old")
		creates = "RefreshAccessToken"
	case 4:
		c = newTok(grant.JWT(), "scope")
		c.d.client.assertKey = func(alg, kid string) interface{} { return []byte("k") }
		m := jwt.MapClaims{"aud": c.d.issuer, "exp": c.now + nd.Int("exp", -1, 1), "sub": nd.StrIn("sub", textClass, 0, -1)}
		s, _ := jwt.NewWithClaims(jwt.SigningMethodHS256, m).SignedString([]byte("k"))
		c.body.Set("assertion", s)
	}
	c.d.client.scopeOK = nd.Bool("scope_permitted")
	scp, _ := symScope("info.scope")
	c.d.info = newInfo(scp)
	c.d.token = newToken("new")
	return
}

// C09_success: what a token response carries.
func C09_success() {
	c, creates := anyGrant()
	d := c.d
	c.run()
	if !isTokenResponse(c.w) {
		nd.Assert(c.w.status >= 400 && noStore(c.w) && oauthError(c.w) != "", "an answer that is no token response is a JSON error, not cacheable")
		nd.Assert(!leaks(c.w), "an error answer never contains a token")
		nd.Reach("error")
		return
	}
	nd.Assert(noStore(c.w), "a token response is JSON and not cacheable")
	nd.Assert(d.count(creates) == 1 && d.ok(creates), "the token sent was just created or refreshed")
	if f := d.find("CreateOAuthToken"); f != nil {
		nd.Assert(f.i[0] == 1, "the token is created as one of the token endpoint")
	}
	c.carried()
}

// carried: the token response carries exactly the token.
func (c *tokCase) carried() {
	d := c.d
	t, ok := c.response()
	nd.Assert(ok, "a token response is a JSON object")
	if !ok {
		return
	}
	nd.Assert(t.ExpiresIn != nil && nd.And(t.AccessToken == d.token.access, *t.ExpiresIn == d.token.accessExp), "access_token and expires_in are those of the token")
	nd.Assert(t.TokenType == "Bearer", "the token type is Bearer")
	if t.RefreshToken != nil {
		nd.Assert(nd.And(*t.RefreshToken == d.token.refresh, *t.RefreshToken != ""), "refresh_token is that of the token, and not empty")
		nd.Reach("refresh_token")
	} else {
		nd.Assert(d.token.refresh == "", "a refresh token is passed on")
		nd.Reach("no refresh_token")
	}
	if t.Scope != nil {
		nd.Assert(nd.And(*t.Scope == d.info.scope, *t.Scope != ""), "scope is that of the authorization, and not empty")
		nd.Reach("scope")
	} else {
		nd.Assert(d.info.scope == "", "the scope of the authorization is passed on")
		nd.Reach("no scope")
	}
	m, _ := jsonBody(c.w)
	known := true
	for k := range m {
		switch k {
		case "access_token", "token_type", "expires_in", "refresh_token", "scope", "id_token":
		default:
			known = false
		}
	}
	nd.Assert(known, "a token response carries nothing else")
}

// C09_values: tokens of any text.
func C09_values() {
	c, _ := anyGrant()
	c.d.token.access, c.d.token.refresh = anyText("access"), anyText("refresh")
	c.run()
	if isTokenResponse(c.w) {
		c.carried()
	}
}

// C09_errors: every error of the endpoint and of its grants, under store faults,
// with and without a configured error URI.
func C09_errors() {
	c, _ := anyGrant()
	c.d.faulty()
	if nd.Bool("error_uri") {
		c.te.SetErrorURI("https://op/e")
	}
	c.run()
	nd.Assert(noStore(c.w), "every JSON answer is marked JSON and not cacheable")
	if !isTokenResponse(c.w) {
		nd.Assert(c.w.status >= 400 && oauthError(c.w) != "", "an answer that is no token response is an OAuth error")
		nd.Assert(!leaks(c.w), "an error answer never contains a token")
		nd.Reach("error")
	} else {
		nd.Reach("token")
	}
}

// C09_auth: the errors before any grant.
func C09_auth() {
	te := goidc.NewTokenEndpoint(nd.StrIn("realm", textClass, 0, -1))
	te.SetLogger(nopLogger{})
	te.AcceptClientSecret(goidc.FromAll)
	te.AcceptClientAssertion(true)
	p := &probe{typ: "g"}
	te.Support(p.handler())
	now := symNow()
	te.SetTimeBuilder(setClock(now))
	if nd.Bool("error_uri") {
		te.SetErrorURI("https://op/e")
	}
	body := url.Values{}
	body.Set("grant_type", nd.StrIn("grant_type", textClass, 0, -1))
	d := newDI()
	d.issuer = "https://op"
	d.def = 5
	d.n["RecordAssertionClaims"] = 4
	d.client = &symClient{secret: nd.StrIn("registered", textClass, 0, -1), assertKey: func(alg, kid string) interface{} { return []byte("k") }}
	may := nd.Bool("may")
	d.client.grants = func(string) bool { return may }
	r := newReq("POST", "/token", body, nil)
	id, sec := nd.StrIn("client_id", " !#-9;-Z_a-}", 0, -1), nd.StrIn("client_secret", textClass, 0, -1)
	switch nd.Choice("how", 4) {
	case 1:
		r.Header.Set("Authorization", basicHeader(id, sec))
	case 2:
		r.Form.Set("client_id", id)
		r.Form.Set("client_secret", sec)
	case 3:
		r.Form.Set("client_assertion", []string{"x.y.z", hsToken(id, d.issuer, now, "k"), hsToken(id, "other", now, "k"), hsToken(id, d.issuer, now-1, "k")}[nd.Choice("assertion", 4)])
		r.Form.Set("client_assertion_type", jwtBearer)
	}
	w := newRecorder()
	te.Handler(d)(w, r)
	nd.Assert(noStore(w), "every JSON answer is marked JSON and not cacheable")
	if p.runs == 0 {
		nd.Assert(w.status >= 400 && oauthError(w) != "" && !leaks(w), "an answer that is no token response is an OAuth error")
		nd.Reach("error")
	} else {
		nd.Assert(isTokenResponse(w), "the grant's response is sent")
		nd.Reach("token")
	}
}
