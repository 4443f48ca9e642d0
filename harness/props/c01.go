package props

import (
	"net/http"
	"net/url"
	"time"

	"github.com/golang-jwt/jwt"
	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/grant"
	"github.com/lyokato/goidc/log"
	oer "github.com/lyokato/goidc/oauth_error"
	"vharness/nd"
)

// probe is a grant that records its execution.
type probe struct {
	typ   string
	runs  int
	c     bridge.Client
	fails bool
}

func (p *probe) handler() *grant.GrantHandler {
	return &grant.GrantHandler{Type: p.typ, Func: func(r *http.Request, c bridge.Client, sdi bridge.DataInterface, l log.Logger, t time.Time) (*grant.Response, *oer.OAuthError) {
		p.runs++
		p.c = c
		if p.fails {
			return nil, oer.NewOAuthSimpleError(oer.ErrInvalidScope)
		}
		return grant.NewResponse("~~", 1), nil
	}}
}

const jwtBearer = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"

// credential is what a request presents, as the server's configuration reads it.
type credential struct {
	present  bool
	inHeader bool
	id, sec  string
}

func setCredentials(m goidc.CredentialAcceptanceMethod) (hdr string, body, query url.Values, c credential) {
	body, query = url.Values{}, url.Values{}
	id := nd.StrIn("client_id", "^:", 0, -1)
	sec := nd.Str("client_secret")
	switch nd.Choice("where", 9) {
	case 0: // nowhere
	case 1:
		hdr = basicHeader(id, sec)
		c = credential{true, true, id, sec}
	case 2:
		hdr = "basic" + basicHeader(id, sec)[5:]
		c = credential{true, true, id, sec}
	case 3: // both: the header wins
		hdr = basicHeader(id, sec)
		body.Set("client_id", nd.Str("body.client_id"))
		body.Set("client_secret", nd.Str("body.client_secret"))
		c = credential{true, true, id, sec}
	case 4, 5: // body, with or without a useless header
		body.Set("client_id", id)
		body.Set("client_secret", sec)
		if m == goidc.FromHeaderAndPostBody || m == goidc.FromAll {
			c = credential{nd.And(id != "", sec != ""), false, id, sec}
		}
	case 6:
		query.Set("client_id", id)
		query.Set("client_secret", sec)
		if m == goidc.FromAll {
			c = credential{nd.And(id != "", sec != ""), false, id, sec}
		}
	case 7: // id in the body, secret in the query
		body.Set("client_id", id)
		query.Set("client_secret", sec)
		if m == goidc.FromAll {
			c = credential{nd.And(id != "", sec != ""), false, id, sec}
		}
	case 8: // header without a colon, not base64, or of another scheme
		hdr = []string{"Basic eHl6", "Basic %%%", "Bearer eDp5", "Basic"}[nd.Choice("badheader", 4)]
	}
	return
}

func acceptMethod() goidc.CredentialAcceptanceMethod {
	return []goidc.CredentialAcceptanceMethod{goidc.FromHeader, goidc.FromHeaderAndPostBody, goidc.FromAll}[nd.Choice("accept", 3)]
}

// C01_secret: authentication by client secret, all channels and configurations.
func C01_secret() {
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(nopLogger{})
	m := acceptMethod()
	te.AcceptClientSecret(m)
	p := &probe{typ: "g", fails: nd.Bool("grant_fails")}
	te.Support(p.handler())
	hdr, body, query, cred := setCredentials(m)
	gt := nd.Str("grant_type")
	body.Set("grant_type", gt)
	method := nd.Str("method")
	r := newReq(method, "/token", body, query)
	if hdr != "" {
		r.Header.Set("Authorization", hdr)
	}
	d := newDI()
	d.def = 5
	d.client = newClient(nd.Str("registered_secret"))
	allowed := nd.Bool("allowed")
	d.client.grants = func(g string) bool { return allowed }
	w := newRecorder()
	te.Handler(d)(w, r)
	c01Oracle(w, d, p, method, gt, cred, allowed)
}

func c01Oracle(w *recorder, d *di, p *probe, method, gt string, cred credential, allowed bool) {
	if method != "POST" {
		nd.Assert(w.status == 405, "a request that is not a POST is answered with 405")
		nd.Assert(p.runs == 0 && len(d.calls) == 0 && !isTokenResponse(w), "no grant runs for a request that is not a POST")
		nd.Reach("method")
		return
	}
	if gt != "g" {
		want := "unsupported_grant_type"
		if gt == "" {
			want = "invalid_request"
		}
		nd.Assert(isError(w, 400, want), "a bad grant_type is answered with invalid_request or unsupported_grant_type")
		nd.Assert(p.runs == 0, "no grant runs for a bad grant_type")
		nd.Reach(want)
		return
	}
	if !cred.present {
		nd.Assert(isError(w, 401, "invalid_client") && w.has("WWW-Authenticate"), "a request without credential is answered with invalid_client, 401 and a challenge")
		nd.Assert(p.runs == 0 && len(d.calls) == 0, "no grant runs without a credential")
		nd.Reach("nocred")
		return
	}
	fc := d.find("FindClientById")
	nd.Assert(fc != nil && fc.s[0] == cred.id && d.count("FindClientById") == 1, "the client looked up is the one presented")
	if fc == nil {
		return
	}
	switch fc.ans {
	case ansServer, ansUnsupported, ansNil:
		nd.Assert(isError(w, 500, "server_error"), "a failing client lookup is answered with server_error")
		nd.Assert(p.runs == 0, "no grant runs when the client lookup fails")
		nd.Reach("lookupfault")
		return
	}
	if fc.ans == ansFailed || cred.sec != d.client.secret {
		nd.Assert(p.runs == 0, "no grant runs unless the client accepted the secret")
		if cred.inHeader {
			nd.Assert(isError(w, 401, "invalid_client") && w.has("WWW-Authenticate"), "a bad header credential is answered with invalid_client, 401 and a challenge")
			nd.Reach("badheader")
		} else {
			nd.Assert(isError(w, 400, "invalid_client"), "a bad form credential is answered with invalid_client and 400")
			nd.Reach("badform")
		}
		return
	}
	if !allowed {
		nd.Assert(isError(w, 400, "unauthorized_client") && p.runs == 0, "a grant type the client may not use is answered with unauthorized_client")
		nd.Reach("unauthorized")
		return
	}
	nd.Assert(p.runs == 1, "the grant runs exactly once for an authenticated client")
	nd.Assert(p.c != nil && p.c == bridge.Client(d.client), "the grant runs for the authenticated client")
	if p.fails {
		nd.Assert(isError(w, 400, "invalid_scope"), "an error of the grant is passed on")
	} else {
		nd.Assert(isTokenResponse(w), "the grant's response is sent")
	}
	nd.Reach("granted")
}

// shortAssertion: absent, useless or (maybe) valid client assertions.
type shortAssertion struct {
	text    string
	genuine bool
	sub     string
	key     string
}

func symShortAssertion(now int64, issuer string) *shortAssertion {
	a := &shortAssertion{}
	switch nd.Choice("assertion", 4) {
	case 0:
	case 1:
		a.text = "x.y.z"
	case 2:
		a.sub = nd.Str("jwt.sub")
		a.key = nd.StrIn("reg.key", keyClass, 0, -1)
		k := nd.StrIn("jwt.key", keyClass, 0, -1)
		a.text = hsToken(a.sub, issuer, now, k)
		a.genuine = k == a.key
	case 3:
		a.sub = nd.Str("jwt.sub")
		a.text = hsToken(a.sub, issuer, now-1, "k")
		a.key = "k"
	}
	return a
}

func hsToken(sub, aud string, exp int64, key string) string {
	t := jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims{"sub": sub, "aud": aud, "exp": exp})
	s, err := t.SignedString([]byte(key))
	if err != nil {
		panic(err)
	}
	return s
}

// C01_both: secrets and assertions side by side, assertions enabled or not.
func C01_both() {
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(nopLogger{})
	m := acceptMethod()
	te.AcceptClientSecret(m)
	enabled := nd.Bool("accept_assertion")
	te.AcceptClientAssertion(enabled)
	p := &probe{typ: "g"}
	te.Support(p.handler())
	now := symNow()
	te.SetTimeBuilder(setClock(now))
	d := newDI()
	d.issuer = nd.StrIn("issuer", "^~", 1, -1)
	a := symShortAssertion(now, d.issuer)
	hdr, body, query, cred := "", url.Values{}, url.Values{}, credential{}
	if nd.Bool("with_secret") {
		hdr, body, query, cred = setCredentials(m)
	}
	body.Set("grant_type", "g")
	typ := nd.Str("client_assertion_type")
	switch nd.Choice("assertion_in", 3) {
	case 0:
		body.Set("client_assertion", a.text)
		body.Set("client_assertion_type", typ)
	case 1:
		query.Set("client_assertion", a.text)
		query.Set("client_assertion_type", typ)
	case 2: // nowhere
		a.text = ""
	}
	r := newReq("POST", "/token", body, query)
	if hdr != "" {
		r.Header.Set("Authorization", hdr)
	}
	d.n["FindClientById"] = 5
	allowed := nd.Bool("allowed")
	d.client = newClient(nd.Str("registered_secret"))
	d.client.grants = func(g string) bool { return allowed }
	d.client.assertKey = func(alg, kid string) interface{} { return []byte(a.key) }
	w := newRecorder()
	te.Handler(d)(w, r)
	if cred.present || !enabled || a.text == "" || typ != jwtBearer {
		nd.Reach("secret")
		c01Oracle(w, d, p, "POST", "g", cred, allowed)
		return
	}
	// by assertion
	if p.runs > 0 {
		nd.Assert(a.genuine, "a client authenticates by assertion only with a valid one")
		nd.Assert(d.ok("FindClientById") && d.find("FindClientById").s[0] == a.sub && d.count("FindClientById") == 1, "the client looked up is the one named by the assertion")
		nd.Assert(p.runs == 1 && allowed && p.c == bridge.Client(d.client), "the grant runs once, for the authenticated client")
		nd.Assert(isTokenResponse(w), "the grant's response is sent")
		nd.Reach("by assertion")
		return
	}
	nd.Assert(oauthError(w) != "" && w.status >= 400, "failed authentication by assertion is an OAuth error")
	nd.Assert(!(a.genuine && allowed && d.fine("FindClientById")), "a valid assertion of an authorised client authenticates it")
	nd.Reach("assertion refused")
}
