package props

import (
	"net/url"
	"strconv"
	"time"

	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/grant"
	oer "github.com/lyokato/goidc/oauth_error"
	"vharness/nd"
)

// another sets up other endpoints, each in its own way, and handles a request
// of the kind there.
func another(kind int) {
	f := jwt.TimeFunc
	defer func() { jwt.TimeFunc = f }()
	pol := authorization.DefaultPolicy()
	pol.MaxMaxAge, pol.MinMaxAge, pol.AllowEmptyScope = 1, 1, true
	pol.MaxNonceLength, pol.MaxCodeVerifierLength = 0, 0
	pol.ConsentOmissionPeriod, pol.AuthSessionExpiresIn, pol.IdTokenExpiresIn = 1, 7, 7
	pol.DefaultAuthorizationCodeFlowResponseMode, pol.DefaultImplicitFlowResponseMode = "form_post", "form_post"
	pol.IgnoreInvalidResponseMode, pol.RequireResponseModeSecurityLevelCheck = false, false
	late := func() time.Time { return time.Unix(1<<40, 0) }
	te := goidc.NewTokenEndpoint("other")
	te.SetLogger(nopLogger{})
	te.SetTimeBuilder(late)
	rp := goidc.NewResourceProtector("other")
	rp.SetLogger(nopLogger{})
	rp.SetTimeBuilder(late)
	if nd.Bool("another.set_up") {
		uri := func(oer.OAuthErrorType) string { return "https://other/" }
		te.AcceptClientSecret(goidc.FromAll)
		te.AcceptClientAssertion(true)
		te.SetErrorURIBuilder(uri)
		te.Support(grant.ClientCredentials())
		te.Support(&grant.GrantHandler{Type: "password", Func: grant.ClientCredentials().Func})
		rp.AcceptAccessToken(goidc.FromAll)
		rp.SetErrorURIBulder(uri)
	}
	s := newStepAt("b", kind)
	ae := goidc.NewAuthorizationEndpoint(s.d, pol)
	ae.SetLogger(nopLogger{})
	ae.SetTimeBuilder(late)
	s.d.issuer = "https://other"
	b, q := url.Values{}, url.Values{}
	fine := nd.Bool("another.fine")
	pick := func(yes, no string) string {
		if fine {
			return yes
		}
		return no
	}
	switch kind {
	case kToken:
		s.d.client.secret = "s"
		b.Set("grant_type", "client_credentials")
		s.r = bare("POST", "/token", b, q)
		s.r.Header.Set("Authorization", basicHeader("other", pick("s", "t")))
		te.Handler(s.d)(s.w, s.r)
	case kResource:
		b.Set("access_token", pick("t", ""))
		s.r = bare("POST", "/resource", b, q)
		rp.ValidateWithScopes(s.w, s.r, s.d, map[string][]string{"/resource": {"other"}})
	case kAuthorize:
		q.Set("client_id", "other")
		q.Set("redirect_uri", "https://other/")
		q.Set("response_type", pick("code", "x"))
		q.Set("scope", "openid")
		q.Set("state", "other")
		s.cb = &cbs{n: map[string]int{}, def: 1, login: true, from: true, match: true, code: "other", locale: "other"}
		s.d.client.nonePolicy, s.d.client.noConsent = 1, 1
		s.r = bare("GET", "/authorize", b, q)
		ae.HandleRequest(s.w, s.r, s.cb)
	}
}

// tenant has another data interface served by the same token endpoint.
func (q *reading) tenant() {
	s := newStepAt("c", kToken)
	s.d.issuer = "https://other"
	s.d.client.secret = "s"
	b := url.Values{}
	b.Set("grant_type", "client_credentials")
	s.r = bare("POST", "/token", b, nil)
	s.r.Header.Set("Authorization", basicHeader("other", "s"))
	h := q.sv.tokens.Handler(s.d)
	if nd.Bool("another.fine") {
		h(s.w, s.r)
	}
}

// independent: the request has the outcome it has where there are no other
// endpoints.
func (q *reading) independent() {
	q.sent()
	one := nd.Alone(func() string {
		q.sv = q.make()
		return q.logged()
	})
	n := 2
	if q.kind == kToken {
		n++
	}
	switch k := nd.Choice("another", n); {
	case k == 0:
		another(q.kind)
		q.sv = q.make()
	case k == 1:
		q.sv = q.make()
		another(q.kind)
	default:
		q.sv = q.make()
		q.tenant()
	}
	nd.Assert(q.logged() == one, "other endpoints change nothing")
	nd.Reach("status " + strconv.Itoa(q.w.status))
}

// C48_token: token endpoints.
func C48_token() { tokenReading().independent() }

// C48_resource: resource protectors.
func C48_resource() { resourceReading().independent() }

// C48_authorize: authorization endpoints, with any policy or the default one.
func C48_authorize() {
	q := authorizeReading()
	if nd.Bool("default_policy") {
		q.make = func() *server { return newServer(authorization.DefaultPolicy()) }
	}
	q.independent()
}
