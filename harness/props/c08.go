package props

import (
	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/grant"
	"vharness/nd"
)

// c08Scope: the part the direct grants share. user is the verified user id.
func c08Check(c *tokCase, user int64, userOK bool) {
	d := c.d
	scp := c.p["scope"]
	x := d.find("CreateOrUpdateAuthInfo")
	if x != nil {
		nd.Assert(userOK, "an authorization is created only for a verified user")
		nd.Assert(d.count("CreateOrUpdateAuthInfo") == 1 && nd.And(x.i[0] == user, x.s[0] == c.cid, x.s[1] == scp),
			"the authorization is for the verified user, the authenticated client and exactly the requested scope")
		nd.Assert(nd.Or(scp == "", d.client.scopeOK), "an authorization is created only with a permitted scope")
	}
	if y := d.find("CreateOAuthToken"); y != nil {
		nd.Assert(x != nil && x.ans == ansOK && y.o == interface{}(d.info) && d.count("CreateOAuthToken") == 1, "the token is created for that authorization")
	}
	for i, s := range d.client.scopeAsked {
		nd.Assert(s == scp && d.client.scopeFlow[i] == flow.DirectGrant, "the permission asked for is that of the requested scope in a direct grant")
	}
	if isTokenResponse(c.w) {
		nd.Assert(x != nil && d.ok("CreateOAuthToken"), "a token response follows the creation of authorization and token")
	}
}

func c08Setup(g *grant.GrantHandler, params ...string) *tokCase {
	c := newTok(g, append([]string{"scope"}, params...)...)
	d := c.d
	d.client.scopeOK = nd.Bool("scope_permitted")
	d.info = newInfo(c.p["scope"])
	d.token = newToken("new")
	d.n["CreateOrUpdateAuthInfo"] = 2
	d.n["CreateOAuthToken"] = 2
	return c
}

// permitted: the requested scope is.
func (c *tokCase) permitted() bool { return nd.Or(c.p["scope"] == "", c.d.client.scopeOK) }

// settled: the verdict on a request whose scope and user are fine.
func (c *tokCase) settled() {
	if c.d.fine("CreateOrUpdateAuthInfo", "CreateOAuthToken") {
		nd.Assert(isTokenResponse(c.w), "a verified user and a permitted scope give a token")
		nd.Reach("token")
	} else {
		nd.Assert(oauthError(c.w) != "" && !leaks(c.w), "a failing store is an OAuth error")
		nd.Reach("fault")
	}
}

func (c *tokCase) refused(status int, typ, why string) {
	nd.Assert(isError(c.w, status, typ) && c.nothingCreated(), why)
	nd.Reach(typ)
}

func C08_password() {
	c := c08Setup(grant.Password(), "username", "password")
	d := c.d
	d.n["FindUserId"] = 2
	d.uid = nd.Int("uid", -maxT, maxT)
	c.run()
	f := d.find("FindUserId")
	c08Check(c, d.uid, f != nil && f.ans == ansOK)
	u, p := c.p["username"], c.p["password"]
	if f != nil {
		nd.Assert(d.count("FindUserId") == 1 && nd.And(f.s[0] == u, f.s[1] == p), "the credentials verified are those presented")
	}
	switch {
	case u == "" || p == "":
		c.refused(400, "invalid_request", "a missing username or password is invalid_request")
	case !c.permitted():
		c.refused(400, "invalid_scope", "a scope that is not permitted is invalid_scope")
	case f == nil:
		nd.Assert(false, "the credentials are verified")
	case f.ans == ansFailed:
		c.refused(400, "invalid_grant", "an unknown user is invalid_grant")
	default:
		c.settled()
	}
}

func C08_client() {
	c := c08Setup(grant.ClientCredentials())
	d := c.d
	d.client.owner = nd.Int("owner", -maxT, maxT)
	c.run()
	c08Check(c, d.client.owner, d.client.owner >= 0)
	switch {
	case d.client.owner < 0:
		nd.Assert(c.nothingCreated() && oauthError(c.w) != "", "a client without owner gets no token")
		nd.Reach("no owner")
	case !c.permitted():
		c.refused(400, "invalid_scope", "a scope that is not permitted is invalid_scope")
	default:
		c.settled()
	}
}

func C08_jwt() {
	c := c08Setup(grant.JWT())
	d := c.d
	d.n["FindUserIdBySubject"] = 2
	d.subUid = nd.Int("uid", -maxT, maxT)
	d.client.assertKey = func(alg, kid string) interface{} { return []byte("k") }
	sub := nd.StrIn("sub", textClass, 0, -1)
	kind := nd.Choice("assertion", 3)
	switch kind {
	case 1, 2:
		m := jwt.MapClaims{"aud": d.issuer, "exp": c.now}
		if kind == 1 {
			m["sub"] = sub
		}
		s, _ := jwt.NewWithClaims(jwt.SigningMethodHS256, m).SignedString([]byte("k"))
		c.body.Set("assertion", s)
	case 0:
		c.body.Set("assertion", "")
	}
	c.run()
	f := d.find("FindUserIdBySubject")
	c08Check(c, d.subUid, f != nil && f.ans == ansOK)
	if f != nil {
		nd.Assert(kind == 1 && f.s[0] == sub && d.count("FindUserIdBySubject") == 1, "the user is that of the assertion's sub")
	}
	switch {
	case kind == 0:
		c.refused(400, "invalid_request", "a missing assertion is invalid_request")
	case kind == 2:
		c.refused(400, "invalid_request", "an assertion without sub is invalid_request")
	case f != nil && f.ans == ansFailed:
		c.refused(400, "invalid_grant", "an unknown subject is invalid_grant")
	case !c.permitted():
		c.refused(400, "invalid_scope", "a scope that is not permitted is invalid_scope")
	case f == nil:
		nd.Assert(false, "the subject is looked up")
	default:
		c.settled()
	}
}
