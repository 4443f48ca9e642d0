package props

import (
	"github.com/lyokato/goidc/grant"
	"vharness/nd"
)

// C04_code: one redemption against every answer of the store.
func C04_code() {
	c := newTok(grant.AuthorizationCode(), "redirect_uri", "code", "code_challenge", "code_challenge_method")
	d := c.d
	d.n["FindAuthSessionByCode"] = 5
	d.n["FindActiveAuthInfoById"] = 5
	scp, _ := symScope("info.scope")
	d.info = newInfo(scp)
	d.sess = newSession()
	if nd.Bool("plain_pkce") {
		nd.Assume(c.p["code_challenge_method"] == "plain")
		nd.Assume(nd.And(c.p["code_challenge"] == d.sess.verifier, d.sess.verifier != ""))
	} else {
		d.sess.verifier = ""
	}
	d.token = newToken("new")
	c.run()
	uri, code := c.p["redirect_uri"], c.p["code"]
	if nd.Or(uri == "", code == "") {
		nd.Assert(isError(c.w, 400, "invalid_request"), "a missing code or redirect_uri is invalid_request")
		nd.Assert(c.nothingCreated(), "no token is created without code or redirect_uri")
		nd.Reach("missing")
		return
	}
	fs, fi := d.find("FindAuthSessionByCode"), d.find("FindActiveAuthInfoById")
	nd.Assert(fs != nil && fs.s[0] == code, "the session looked up is that of the presented code")
	if fs == nil {
		return
	}
	if fi != nil {
		nd.Assert(fs.ans == ansOK && fi.i[0] == d.sess.authId, "the authorization looked up is that of the session")
	}
	known := d.fine("FindAuthSessionByCode", "FindActiveAuthInfoById")
	right := nd.And(d.info.clientId == c.cid, d.sess.uri == uri, c.now <= d.sess.created+d.sess.exp)
	if nd.And(known, right) {
		nd.Assert(isTokenResponse(c.w), "a known, live code is redeemable by its client at its redirect_uri")
		nd.Assert(d.count("CreateOAuthToken") == 1 && d.find("CreateOAuthToken").o == interface{}(d.info), "the token is created for the code's authorization")
		nd.Reach("redeemed")
		return
	}
	nd.Assert(c.nothingCreated() && !leaks(c.w), "no token is created for a code that is not redeemable")
	if fs.ans == ansFailed || fi != nil && fi.ans == ansFailed || known {
		nd.Assert(isError(c.w, 400, "invalid_grant"), "a code that is not redeemable is invalid_grant")
		nd.Reach("invalid_grant")
	} else {
		nd.Assert(c.w.status >= 400 && oauthError(c.w) != "", "a failing store is an OAuth error")
		nd.Reach("fault")
	}
}
