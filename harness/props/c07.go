package props

import (
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/grant"
	"vharness/nd"
)

// C07_refresh: one refresh against every answer of the store.
func C07_refresh() {
	c := newTok(grant.RefreshToken(), "refresh_token")
	d := c.d
	d.n["FindOAuthTokenByRefreshToken"] = 5
	d.n["FindActiveAuthInfoById"] = 5
	scp, ws := symScope("info.scope")
	d.info = newInfo(scp)
	d.oldTok = newToken("old")
	d.token = newToken("new")
	c.run()
	rt := c.p["refresh_token"]
	if rt == "" {
		nd.Assert(isError(c.w, 400, "invalid_request") && c.nothingCreated(), "a missing refresh_token is invalid_request")
		nd.Reach("missing")
		return
	}
	ft, fi := d.find("FindOAuthTokenByRefreshToken"), d.find("FindActiveAuthInfoById")
	nd.Assert(ft != nil && ft.s[0] == rt, "the token looked up is the one presented")
	if ft == nil {
		return
	}
	if fi != nil {
		nd.Assert(ft.ans == ansOK && fi.i[0] == d.oldTok.authId, "the authorization looked up is that of the token")
	}
	known := d.fine("FindOAuthTokenByRefreshToken", "FindActiveAuthInfoById")
	live := c.now <= d.oldTok.created+d.oldTok.refExp
	right := nd.And(live, d.info.clientId == c.cid, member(ws, "offline_access"))
	if nd.And(known, right) {
		nd.Assert(isTokenResponse(c.w), "a known, live refresh token with offline access refreshes")
		x := d.find("RefreshAccessToken")
		nd.Assert(x != nil && d.count("RefreshAccessToken") == 1 && x.o == interface{}(d.info) && x.o2 == interface{}(bridge.OAuthToken(d.oldTok)),
			"exactly the presented token is refreshed, under its authorization")
		nd.Assert(d.count("CreateOAuthToken") == 0 && d.count("CreateOrUpdateAuthInfo") == 0, "nothing else is created")
		nd.Reach("refreshed")
		return
	}
	nd.Assert(c.nothingCreated() && !leaks(c.w), "nothing is refreshed otherwise")
	if known || ft.ans == ansFailed || fi != nil && fi.ans == ansFailed {
		nd.Assert(isError(c.w, 400, "invalid_grant"), "an unusable refresh token is invalid_grant")
		nd.Reach("invalid_grant")
	} else {
		nd.Assert(c.w.status >= 400 && oauthError(c.w) != "", "a failing store is an OAuth error")
		nd.Reach("fault")
	}
}
