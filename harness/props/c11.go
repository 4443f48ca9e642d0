package props

import (
	"github.com/lyokato/goidc/grant"
	"vharness/nd"
)

// C11_code: a redemption that passes all checks of the code grant.
func C11_code() {
	c := newTok(grant.AuthorizationCode(), "redirect_uri", "code")
	d := c.d
	scp, ws := symScope("info.scope")
	d.info = newInfo(scp)
	d.sess = newSession()
	d.token = newToken("new")
	d.issuer = nd.Str("issuer")
	k := symIdKey()
	d.client.alg, d.client.key, d.client.kid = k.alg, k.key, nd.Str("kid")
	nd.Assume(nd.And(c.p["redirect_uri"] != "", c.p["code"] != "", d.info.clientId == c.cid, d.sess.uri == c.p["redirect_uri"], c.now <= d.sess.created+d.sess.exp, d.sess.verifier == ""))
	c.run()
	t, ok := c.response()
	nd.Assert(ok, "a redeemable code gives a token response")
	if !ok {
		return
	}
	if !member(ws, "openid") {
		nd.Assert(t.IdToken == nil, "without the openid scope there is no id_token")
		nd.Reach("no openid")
		return
	}
	nd.Assert(t.IdToken != nil, "with the openid scope there is an id_token")
	if t.IdToken == nil {
		return
	}
	h, m, ok := readIdToken(*t.IdToken, k)
	nd.Assert(ok, "the ID token is signed with the client's algorithm and key")
	if !ok {
		return
	}
	nd.Assert(claimIs(h, "kid", d.client.kid, true), "the header names the client's key id")
	nd.Assert(claimIs(m, "iss", d.issuer, false), "iss is the issuer")
	nd.Assert(claimIs(m, "aud", d.info.clientId, false), "aud is the authorization's client id")
	nd.Assert(claimIs(m, "sub", d.info.subject, false), "sub is the authorization's subject")
	nd.Assert(claimInt(m, "exp", c.now+d.sess.idtExp), "exp is the request time plus the session's ID token lifetime")
	nd.Assert(claimInt(m, "iat", c.now), "iat is the request time")
	nd.Assert(claimInt(m, "auth_time", d.sess.authTime), "auth_time is the session's")
	nd.Assert(claimIs(m, "nonce", d.sess.nonce, true), "nonce is the session's, when not empty")
	nd.Assert(onlyKeys(m, "iss", "aud", "sub", "exp", "iat", "auth_time", "nonce"), "there is no other claim")
	nd.Reach("id_token")
}

// C11_unable: ID tokens that cannot be generated.
func C11_unable() {
	c := newTok(grant.AuthorizationCode(), "redirect_uri", "code")
	d := c.d
	scp, ws := symScope("info.scope")
	d.info = newInfo(scp)
	d.sess = newSession()
	d.token = newToken("new")
	nd.Assume(nd.And(c.p["redirect_uri"] != "", c.p["code"] != "", d.info.clientId == c.cid, d.sess.uri == c.p["redirect_uri"], c.now <= d.sess.created+d.sess.exp, d.sess.verifier == ""))
	d.client.alg = nd.Str("alg")
	d.client.key = []interface{}{nil, 5, "text", &nd.RSAKey(0).PublicKey}[nd.Choice("key", 4)]
	c.run()
	if member(ws, "openid") {
		nd.Assert(isError(c.w, 500, "server_error") && !leaks(c.w), "an ID token that cannot be generated is a server_error")
		nd.Reach("server_error")
	} else {
		nd.Assert(isTokenResponse(c.w), "without openid no ID token is needed")
		nd.Reach("no openid")
	}
}
