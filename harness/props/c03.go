package props

import (
	"net/url"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/grant"
	"vharness/nd"
)

// C03_client: an assertion as client authentication, before a recording grant.
func C03_client() {
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(nopLogger{})
	te.AcceptClientAssertion(true)
	p := &probe{typ: "g"}
	te.Support(p.handler())
	a := symAssertion()
	body := url.Values{}
	body.Set("grant_type", "g")
	body.Set("client_assertion", a.text)
	body.Set("client_assertion_type", jwtBearer)
	now := symNow()
	te.SetTimeBuilder(setClock(now))
	d := newDI()
	d.issuer = nd.Str("issuer")
	d.n["FindClientById"] = 5
	d.n["RecordAssertionClaims"] = 4
	d.client = &symClient{assertKey: a.assertKey}
	w := newRecorder()
	te.Handler(d)(w, newReq("POST", "/token", body, nil))

	ok := a.acceptable(now, d.issuer)
	if d.find("FindClientById") != nil {
		nd.Assert(a.parses && a.hasSub && d.find("FindClientById").s[0] == a.sub, "the client looked up is the one named by sub")
		ok = nd.And(ok, d.ok("FindClientById"))
	}
	rec := d.find("RecordAssertionClaims")
	if rec != nil {
		nd.Assert(nd.And(rec.s[0] == a.sub, rec.s[1] == a.jti, rec.i[0] == a.recordedIat(), rec.i[1] == a.exp.v),
			"exactly the client, jti, iat and exp of the assertion are recorded")
		ok = nd.And(ok, d.ok("RecordAssertionClaims"))
	} else {
		ok = false
	}
	nd.Assert(d.count("RecordAssertionClaims") <= 1, "an assertion is recorded at most once")
	if ok {
		nd.Assert(nd.And(isTokenResponse(w), p.runs == 1), "a genuine, fresh assertion addressed to the server authenticates the client")
		nd.Assert(p.c != nil && p.c == bridge.Client(d.client), "the authenticated client is the one named by sub")
		nd.Reach("accepted")
	} else {
		nd.Assert(p.runs == 0, "no grant runs on an assertion that is not genuine, fresh and addressed to the server")
		nd.Assert(w.status >= 400 && oauthError(w) != "", "an assertion that is not accepted yields an OAuth error")
		nd.Reach("rejected")
	}
	if a.acceptable(now, d.issuer) && d.fine("FindClientById", "RecordAssertionClaims") {
		nd.Assert(p.runs == 1, "a genuine assertion is accepted")
	}
}

// C03_grant: an assertion as authorization grant.
func C03_grant() {
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(nopLogger{})
	te.Support(grant.JWT())
	a := symAssertion()
	body := url.Values{}
	body.Set("grant_type", grant.TypeJWT)
	body.Set("assertion", a.text)
	now := symNow()
	te.SetTimeBuilder(setClock(now))
	d := newDI()
	d.issuer = nd.Str("issuer")
	d.n["RecordAssertionClaims"] = 4
	d.n["FindUserIdBySubject"] = 4
	d.client = &symClient{assertKey: a.assertKey, scopeOK: true}
	d.info = newInfo("s")
	d.token = newToken("new")
	cid := nd.StrIn("client_id", "^:", 0, -1)
	r := newReq("POST", "/token", body, nil)
	r.Header.Set("Authorization", basicHeader(cid, ""))
	w := newRecorder()
	te.Handler(d)(w, r)

	ok := a.acceptable(now, d.issuer)
	rec := d.find("RecordAssertionClaims")
	if rec != nil {
		nd.Assert(nd.And(rec.s[0] == cid, rec.s[1] == a.jti, rec.i[0] == a.recordedIat(), rec.i[1] == a.exp.v),
			"exactly the client, jti, iat and exp of the assertion are recorded")
		ok = nd.And(ok, d.ok("RecordAssertionClaims"))
	} else {
		ok = false
	}
	if fs := d.find("FindUserIdBySubject"); fs != nil {
		nd.Assert(fs.s[0] == a.sub, "the user is looked up by the sub of the assertion")
		ok = nd.And(ok, d.ok("FindUserIdBySubject"))
	}
	if ok {
		nd.Assert(isTokenResponse(w), "a genuine, fresh assertion addressed to the server yields a token")
		nd.Reach("accepted")
	} else {
		nd.Assert(!(a.acceptable(now, d.issuer) && d.fine("RecordAssertionClaims", "FindUserIdBySubject")), "a genuine assertion is accepted")
		nd.Assert(d.count("CreateOAuthToken") == 0 && d.count("CreateOrUpdateAuthInfo") == 0, "nothing is created for an assertion that is not accepted")
		nd.Assert(w.status >= 400 && oauthError(w) != "", "an assertion that is not accepted yields an OAuth error")
		nd.Reach("rejected")
	}
}
