package props

import (
	"net/http"
	"net/url"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/grant"
	"vharness/nd"
)

// c02Request authenticates the client by a secret, in the header or the body,
// or by an assertion.
func c02Request(te *goidc.TokenEndpoint, d *di, body url.Values, now int64) *http.Request {
	id, sec := nd.StrIn("client_id", "^:", 1, -1), nd.StrIn("client_secret", "", 1, -1)
	d.client.id, d.client.secret = id, sec
	d.client.assertKey = func(alg, kid string) interface{} { return []byte(sec) }
	te.AcceptClientSecret(goidc.FromHeaderAndPostBody)
	te.AcceptClientAssertion(true)
	d.issuer = nd.StrIn("issuer", "", 1, -1)
	how := nd.Choice("how", 3)
	switch how {
	case 1:
		body.Set("client_id", id)
		body.Set("client_secret", sec)
	case 2:
		body.Set("client_assertion", hsToken(id, d.issuer, now, sec))
		body.Set("client_assertion_type", jwtBearer)
	}
	r := newReq("POST", "/token", body, nil)
	if how == 0 {
		r.Header.Set("Authorization", basicHeader(id, sec))
	}
	return r
}

func onlyOwnLookups(d *di) bool {
	for _, c := range d.calls {
		if c.name != "FindClientById" && c.name != "RecordAssertionClaims" {
			return false
		}
	}
	return true
}

// C02_dispatch: two grants under arbitrary names; the client may use one
// arbitrary grant type.
func C02_dispatch() {
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(nopLogger{})
	p1, p2 := &probe{typ: nd.Str("type1")}, &probe{typ: nd.Str("type2")}
	nd.Assume(p1.typ != p2.typ)
	te.Support(p1.handler())
	if nd.Bool("second") {
		te.Support(p2.handler())
	} else {
		p2 = nil
	}
	gt, may := nd.Str("grant_type"), nd.Str("may")
	body := url.Values{"grant_type": {gt}}
	d := newDI()
	d.client = newClient("")
	d.client.grants = func(g string) bool { return g == may }
	now := symNow()
	te.SetTimeBuilder(setClock(now))
	w := newRecorder()
	te.Handler(d)(w, c02Request(te, d, body, now))
	var want *probe
	if gt != "" {
		if gt == p1.typ {
			want = p1
		} else if p2 != nil && gt == p2.typ {
			want = p2
		}
	}
	runs := p1.runs
	if p2 != nil {
		runs += p2.runs
	}
	if want == nil {
		e := "unsupported_grant_type"
		if gt == "" {
			e = "invalid_request"
		}
		nd.Assert(isError(w, 400, e) && runs == 0, "no grant runs for a type that is not registered")
		nd.Reach("unregistered")
		return
	}
	if gt != may {
		nd.Assert(isError(w, 400, "unauthorized_client"), "a client that may not use the grant type gets unauthorized_client")
		nd.Assert(runs == 0 && onlyOwnLookups(d), "nothing is done for a client that may not use the grant type")
		nd.Reach("not allowed")
		return
	}
	nd.Assert(runs == 1 && want.runs == 1, "the grant registered for the requested type runs, and no other")
	nd.Assert(want.c == bridge.Client(d.client) && isTokenResponse(w), "it runs for the authenticated client")
	nd.Reach("run")
}

var realGrants = []func() *grant.GrantHandler{grant.AuthorizationCode, grant.ClientCredentials, grant.Password, grant.RefreshToken, grant.JWT}

// C02_real: none of the library's grants does anything for a client that may
// not use exactly it.
func C02_real() {
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(nopLogger{})
	for _, g := range realGrants {
		te.Support(g())
	}
	i := nd.Choice("grant", len(realGrants))
	gt := realGrants[i]().Type
	may := nd.Str("may")
	nd.Assume(may != gt)
	body := url.Values{"grant_type": {gt}}
	for _, k := range []string{"code", "redirect_uri", "username", "password", "refresh_token", "assertion", "scope"} {
		body.Set(k, nd.Str(k))
	}
	d := newDI()
	d.client = newClient("")
	d.client.grants = func(g string) bool { return g == may }
	now := symNow()
	te.SetTimeBuilder(setClock(now))
	w := newRecorder()
	te.Handler(d)(w, c02Request(te, d, body, now))
	nd.Assert(isError(w, 400, "unauthorized_client"), "a client that may not use the grant type gets unauthorized_client")
	nd.Assert(onlyOwnLookups(d), "nothing is done for a client that may not use the grant type")
	for _, g := range d.client.grantsAsked {
		nd.Assert(g == gt, "the client is asked about the requested grant type")
	}
	nd.Reach("refused")
}
