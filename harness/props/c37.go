package props

import (
	"net/url"

	"github.com/lyokato/goidc"
	"vharness/nd"
)

// writes: the calls that change the store. The record of an assertion that was
// accepted is none of them.
func (d *di) writes() int {
	return d.count("CreateOAuthToken") + d.count("RefreshAccessToken") + d.count("CreateOrUpdateAuthInfo") + d.count("DisableSession") + d.count("CreateAuthSession")
}

// faulted: some call did not answer with a value.
func (d *di) faulted() bool {
	_, f := d.firstFault()
	return f != nil
}

// C37_grants: every grant, any request.
func C37_grants() {
	c, creates := anyGrant()
	c.d.faulty()
	c.run()
	d := c.d
	nd.Assert(d.count("CreateAuthSession") == 0, "the token endpoint stores no session")
	nd.Assert(d.count("CreateOAuthToken")+d.count("RefreshAccessToken") <= 1 && d.count("DisableSession") <= 1 && d.count("CreateOrUpdateAuthInfo") <= 1, "nothing is stored twice")
	if isTokenResponse(c.w) {
		nd.Assert(d.ok(creates), "a token response comes with a token")
		nd.Reach("token")
		return
	}
	if !d.faulted() {
		nd.Assert(d.writes() == 0, "a refused request changes nothing")
		nd.Reach("refused")
		return
	}
	i, _ := d.firstFault()
	for _, k := range d.calls[i+1:] {
		nd.Assert(k.name == "RecordAssertionClaims", "nothing is stored after a failure")
	}
	for _, k := range d.calls[:i] {
		if k.name == creates {
			nd.Assert(d.calls[i].name == "DisableSession", "a token is created only where no more than disabling its code can fail")
		}
	}
	nd.Reach("failed")
}

// C37_credentials: requests whose client is not authenticated, or not allowed.
func C37_credentials() {
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(nopLogger{})
	te.AcceptClientSecret(acceptMethod())
	for _, g := range realGrants {
		te.Support(g())
	}
	te.SetTimeBuilder(setClock(symNow()))
	d := newDI()
	right, may := nd.Bool("right_secret"), nd.Bool("may")
	d.client = &symClient{secret: "s", grants: func(string) bool { return may }, scopeOK: true}
	d.info, d.token, d.oldTok, d.sess = newInfo("read"), newToken("new"), newToken("old"), newSession()
	body := url.Values{}
	body.Set("grant_type", realGrants[nd.Choice("grant", len(realGrants))]().Type)
	for _, k := range []string{"code", "redirect_uri", "username", "password", "refresh_token", "scope"} {
		body.Set(k, nd.StrIn("p."+k, textClass, 0, -1))
	}
	r := newReq([]string{"POST", "GET"}[nd.Choice("method", 2)], "/token", body, nil)
	if nd.Bool("credential") {
		r.Header.Set("Authorization", basicHeader("c", map[bool]string{true: "s", false: "x"}[right]))
	}
	w := newRecorder()
	te.Handler(d)(w, r)
	if !isTokenResponse(w) {
		nd.Assert(d.writes() == 0, "a refused request changes nothing")
		nd.Reach("refused")
	}
}

// C37_resource: protecting resources never changes anything.
func C37_resource() {
	c := newRP(acceptMethod())
	c.d.faulty()
	c.d.oldTok, c.d.info = newToken("tok"), newInfo("openid read")
	c.r = newReq("POST", "/x", url.Values{"access_token": {nd.StrIn("token", textClass, 0, -1)}}, nil)
	need := [][]string{nil, {"read"}, {"write"}}[nd.Choice("need", 3)]
	ok := c.rp.ValidateWithScopes(c.w, c.r, c.d, map[string][]string{"/x": need})
	for _, k := range c.d.calls {
		nd.Assert(k.name == "FindOAuthTokenByAccessToken" || k.name == "FindActiveAuthInfoById", "only the token and its authorization are looked up")
	}
	if ok {
		nd.Reach("admitted")
	} else {
		nd.Reach("denied")
	}
}

// C37_authorize: an authorization request that is not completed stores nothing.
func C37_authorize() {
	c := newAuth()
	c.eventful()
	c.d.client.scopeOK, c.d.client.flowOK = nd.Bool("scope_ok"), true
	c.run()
	nd.Assert(c.d.count("CreateOrUpdateAuthInfo")+c.d.count("RefreshAccessToken")+c.d.count("DisableSession") == 0, "handling a request records no consent")
	a := c.answer()
	done := a != nil && a.ok && a.err() == "" && c.screens() == 0
	if done {
		nd.Assert(c.d.count("CreateAuthSession") <= 1 && c.d.count("CreateOAuthToken") <= 1, "nothing is stored twice")
		nd.Reach("completed")
		return
	}
	what, _ := c.failure()
	if what == "" && c.d.client.alg == "HS256" {
		nd.Assert(c.d.writes() == 0, "a refused request, or one that waits for the user, changes nothing")
		nd.Reach("refused or waiting")
		return
	}
	nd.Reach("failed")
}
