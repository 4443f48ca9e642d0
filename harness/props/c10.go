package props

import (
	"net/url"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/grant"
	"vharness/nd"
)

// failClosed: the verdict on an answer given under store faults.
func failClosed(d *di, w *recorder) {
	i, f := d.firstFault()
	if f == nil {
		nd.Reach("no fault")
		return
	}
	nd.Assert(!isTokenResponse(w) && oauthError(w) != "" && !leaks(w), "a fault is answered with an OAuth error, never with a token")
	nd.Assert(noStore(w), "the error is a JSON answer")
	nd.Assert(i == len(d.calls)-1, "no call is made after the failed one")
	if f.ans == ansFailed {
		nd.Assert(w.status >= 400 && w.status < 500, "not found is answered with a 4xx error")
		nd.Reach("not found " + f.name)
	} else {
		nd.Assert(isError(w, 500, "server_error"), "other faults are answered with server_error")
		nd.Reach("fault " + f.name)
	}
}

// C10_grants: every grant, every call failing in every way.
func C10_grants() {
	c, _ := anyGrant()
	c.d.faulty()
	c.run()
	failClosed(c.d, c.w)
}

// C10_assertion: authentication by assertion, then a grant.
func C10_assertion() {
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(nopLogger{})
	te.AcceptClientAssertion(true)
	now := symNow()
	te.SetTimeBuilder(setClock(now))
	d := newDI().faulty()
	d.client = &symClient{scopeOK: true, owner: 1, assertKey: func(alg, kid string) interface{} { return []byte("k") }}
	d.issuer = []string{"https://op", ""}[nd.Choice("issuer", 2)]
	scp, _ := symScope("info.scope")
	d.info = newInfo(scp)
	d.token = newToken("new")
	body := url.Values{}
	switch nd.Choice("grant", 3) {
	case 0:
		te.Support(grant.ClientCredentials())
		body.Set("grant_type", "client_credentials")
	case 1:
		te.Support(grant.Password())
		body.Set("grant_type", "password")
		body.Set("username", "u")
		body.Set("password", "p")
	case 2:
		te.Support(grant.JWT())
		body.Set("grant_type", grant.TypeJWT)
		body.Set("assertion", hsToken(nd.StrIn("sub", textClass, 0, -1), "https://op", now, "k"))
	}
	body.Set("client_assertion", hsToken(nd.StrIn("client_id", textClass, 0, -1), "https://op", now, "k"))
	body.Set("client_assertion_type", jwtBearer)
	w := newRecorder()
	te.Handler(d)(w, newReq("POST", "/token", body, nil))
	if d.issuer == "" {
		nd.Assert(!isTokenResponse(w) && oauthError(w) != "" && !leaks(w), "without an issuer there is no token")
		if _, f := d.firstFault(); f == nil {
			nd.Assert(isError(w, 500, "server_error"), "a missing issuer is a server_error")
		}
		nd.Reach("no issuer")
		return
	}
	failClosed(d, w)
}

// C10_key: ID token generation that fails after the token was created.
func C10_key() {
	c := newTok(grant.AuthorizationCode(), "redirect_uri", "code")
	d := c.d
	d.info = newInfo("openid")
	d.sess = newSession()
	d.token = newToken("new")
	nd.Assume(nd.And(c.p["redirect_uri"] != "", c.p["code"] != "", d.info.clientId == c.cid, d.sess.uri == c.p["redirect_uri"], c.now <= d.sess.created+d.sess.exp, d.sess.verifier == ""))
	d.client.key = []interface{}{nil, 5, []byte("k"), &nd.RSAKey(0).PublicKey}[nd.Choice("key", 4)]
	d.client.alg = []string{"HS256", "RS256", "XX", "", "none"}[nd.Choice("alg", 5)]
	d.n["CreateOAuthToken"] = 5
	d.n["DisableSession"] = 4
	c.run()
	if d.client.alg == "HS256" {
		if _, isB := d.client.key.([]byte); isB {
			failClosed(d, c.w)
			return
		}
	}
	nd.Assert(!isTokenResponse(c.w) && oauthError(c.w) != "" && !leaks(c.w), "no token without the ID token")
	if _, f := d.firstFault(); f == nil {
		nd.Assert(isError(c.w, 500, "server_error"), "an ID token that cannot be generated is a server_error")
		nd.Reach("no id token")
	} else {
		failClosed(d, c.w)
	}
}
