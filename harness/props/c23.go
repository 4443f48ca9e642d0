package props

import (
	"strconv"

	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/flow"
	"vharness/nd"
)

// only: the answer has exactly the fields, each once.
func (a *answer) only(fields map[string]string) bool {
	if a == nil || !a.ok || len(a.v) != len(fields) {
		return false
	}
	ok := true
	for k, want := range fields {
		got := a.v[k]
		if len(got) != 1 {
			return false
		}
		ok = nd.And(ok, got[0] == want)
	}
	return ok
}

// C23_complete: every pending request, completed by the logged-in user.
func C23_complete() {
	c := newAuth()
	req, k := c.pending()
	c.bind(req)
	c.ret = c.endpoint().CompleteRequest(c.w, consentReq(), c.cb)
	f := c.d.find("CreateOrUpdateAuthInfo")
	nd.Assert(f != nil && c.d.count("CreateOrUpdateAuthInfo") == 1 && f.i[0] == c.cb.uid && f.s[0] == req.ClientId && f.s[1] == req.Scope, "the authorization is that of the logged-in user with the request's client and scope")
	c.delivered(req, k)
}

// bind: the store's answers belong to the request's client.
func (c *authCase) bind(req *authorization.Request) {
	c.d.client.id = req.ClientId
	c.d.info.clientId = req.ClientId
	c.d.client.kid = nd.Str("client.kid")
	c.d.issuer = nd.Str("issuer")
	if req.Flow.RequireIdToken {
		c.idKey = symIdKey()
		c.d.client.alg, c.d.client.key = c.idKey.alg, c.idKey.key
	}
}

// delivered: the answer has exactly what the request's flow gives.
func (c *authCase) delivered(req *authorization.Request, k int) {
	t := responseTypes[k]
	nd.Assert(c.ret && c.screens() == 0, "completion is reported")
	a := c.answer()
	nd.Assert(a != nil && a.ok && a.mode == req.ResponseMode, "the answer goes to the request's redirect URI in its mode")
	if a == nil || !a.ok {
		return
	}
	want := map[string]string{}
	if t.code {
		want["code"] = c.cb.code
	}
	if t.tok {
		want["access_token"] = c.d.token.access
		want["token_type"] = "bearer"
		want["expires_in"] = strconv.Itoa(int(c.d.token.accessExp))
	}
	if req.State != "" {
		want["state"] = req.State
	}
	if t.typ != flow.AuthorizationCode && req.Scope != "" {
		want["scope"] = req.Scope
	}
	if t.idt {
		want["id_token"] = a.v.Get("id_token")
	}
	for f := range want {
		nd.Assert(a.v.Has(f), "the answer has the field "+f)
	}
	nd.Assert(a.only(want), "the answer has exactly the fields of the flow, with their values")
	nd.Assert((c.d.count("CreateAuthSession") == 1) == t.code && c.d.count("CreateAuthSession") <= 1, "a session is stored iff there is a code")
	nd.Assert((c.d.count("CreateOAuthToken") == 1) == t.tok && c.d.count("CreateOAuthToken") <= 1, "a token is created iff there is one")
	if t.code {
		f := c.d.find("CreateAuthSession")
		s, _ := f.o2.(*authorization.Session)
		nd.Assert(f.o == interface{}(c.d.info) && s != nil, "the session is stored for the authorization")
		if s != nil {
			nd.Assert(s.Code == c.cb.code, "the session has the code")
			nd.Assert(s.RedirectURI == req.RedirectURI, "the session has the redirect URI")
			nd.Assert(s.Nonce == req.Nonce && s.CodeVerifier == req.CodeVerifier, "the session has the nonce and the verifier")
			nd.Assert(s.AuthTime == c.cb.authTime && s.ExpiresIn == int64(c.pol.AuthSessionExpiresIn), "the session has the authentication time and lifetime")
		}
	}
	if t.tok {
		f := c.d.find("CreateOAuthToken")
		nd.Assert(f.o == interface{}(c.d.info) && f.i[0] == 0, "the token is created for the authorization")
	}
	if t.idt {
		c.idTokenIs(a.v.Get("id_token"), req, t.tok, t.code)
	}
	nd.Reach(t.rt + " in " + a.mode)
}

func (c *authCase) idTokenIs(text string, req *authorization.Request, tok, code bool) {
	h, m, ok := readIdToken(text, c.idKey)
	nd.Assert(ok, "the ID token is signed with the client's algorithm and key")
	if !ok {
		return
	}
	nd.Assert(claimIs(h, "kid", c.d.client.kid, true), "the ID token names the client's key")
	nd.Assert(claimIs(m, "iss", c.d.issuer, false), "the ID token's issuer")
	nd.Assert(claimIs(m, "aud", req.ClientId, false), "the ID token's audience is the client")
	nd.Assert(claimIs(m, "sub", c.d.info.subject, false), "the ID token's subject")
	nd.Assert(claimIs(m, "nonce", req.Nonce, true), "the ID token's nonce")
	nd.Assert(nd.And(claimInt(m, "iat", c.now), claimInt(m, "exp", c.now+int64(c.pol.IdTokenExpiresIn)), claimInt(m, "auth_time", c.cb.authTime)), "the ID token's times")
	at, hasAt := m["at_hash"].(string)
	nd.Assert(hasAt == tok, "the ID token has an at_hash iff there is an access token")
	if hasAt && tok {
		nd.Assert(boundHash(at, c.idKey.bits, c.d.token.access), "the ID token binds the access token")
	}
	ch, hasC := m["c_hash"].(string)
	nd.Assert(hasC == code, "the ID token has a c_hash iff there is a code")
	if hasC && code {
		nd.Assert(boundHash(ch, c.idKey.bits, c.cb.code), "the ID token binds the code")
	}
}

// C23_direct: requests completed without a screen, with prompt=none or because
// consent may be omitted.
func C23_direct() {
	c := newAuth()
	k := nd.Choice("rt", len(responseTypes))
	t := responseTypes[k]
	c.p["response_type"] = t.rt
	c.p["nonce"] = nd.StrIn("nonce", textClass, 1, 200)
	c.p["code_verifier"] = nd.StrIn("verifier", textClass, 0, 200)
	c.p["client_id"] = nd.StrIn("client_id", textClass, 1, -1)
	if nd.Bool("none") {
		c.p["prompt"] = "none"
		c.d.client.nonePolicy = 1
	} else {
		c.d.client.noConsent = 1
	}
	mode := []string{"fragment", "form_post"}[nd.Choice("mode", 2)]
	c.p["response_mode"] = mode
	c.d.info = newInfo("openid")
	c.d.token = newToken("new")
	nd.Assume(c.d.info.at+int64(c.pol.ConsentOmissionPeriod) > c.now)
	req := &authorization.Request{
		Flow:     &flow.Flow{Type: t.typ, RequireAccessToken: t.tok, RequireIdToken: t.idt},
		ClientId: c.p["client_id"], RedirectURI: c.uri(), Scope: "openid", ResponseMode: mode, State: c.p["state"],
		Nonce: c.p["nonce"], CodeVerifier: c.p["code_verifier"],
	}
	c.bind(req)
	c.run()
	nd.Assert(c.d.count("CreateOrUpdateAuthInfo") == 0, "the authorization stays as it is")
	c.delivered(req, k)
}
