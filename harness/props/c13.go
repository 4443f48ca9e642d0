package props

import (
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/lyokato/goidc"
	"vharness/nd"
)

// challenged: the answer is a bearer challenge with the error code.
func challenged(w *recorder, status int, code string) bool {
	h := w.get("WWW-Authenticate")
	p := `Bearer realm="realm", error="` + code + `"`
	return nd.And(w.status == status, nd.Or(h == p, strings.HasPrefix(h, p+", error_")))
}

// rpCase is a request to a protected resource.
type rpCase struct {
	rp    *goidc.ResourceProtector
	d     *di
	w     *recorder
	r     *http.Request
	now   int64
	token string // the token presented in an enabled location ("" for none)
	bad   bool   // it is in a malformed header
}

func newRP(meth goidc.CredentialAcceptanceMethod) *rpCase {
	c := &rpCase{w: newRecorder(), d: newDI(), now: symNow()}
	c.rp = goidc.NewResourceProtector("realm")
	c.rp.SetLogger(nopLogger{})
	c.rp.AcceptAccessToken(meth)
	c.rp.SetTimeBuilder(setClock(c.now))
	return c
}

// forged X-OAUTH headers of the caller.
func (c *rpCase) forge() {
	if nd.Bool("forged") {
		for _, k := range []string{"X-OAUTH-USER-ID", "X-OAUTH-CLIENT-ID", "X-OAUTH-SCOPE"} {
			c.r.Header.Set(k, nd.Str("forged"))
			c.r.Header.Add(k, "x")
		}
	}
}

func (c *rpCase) identity() bool {
	one := func(k, v string) bool {
		l := c.r.Header.Values(k)
		return len(l) == 1 && l[0] == v
	}
	i := c.d.info
	return one("X-OAUTH-USER-ID", strconv.FormatInt(i.userId, 10)) && one("X-OAUTH-CLIENT-ID", i.clientId) && one("X-OAUTH-SCOPE", i.scope)
}

func (c *rpCase) denied() bool { return nd.And(c.w.status >= 400, c.w.status <= 599) }

// C13_where: the locations of the token for all configurations.
func C13_where() {
	meth := acceptMethod()
	c := newRP(meth)
	at := nd.StrIn("access_token", "^ ", 0, -1)
	hdr, other := "", ""
	body, query := url.Values{}, url.Values{}
	inBody := func() bool { return meth == goidc.FromHeaderAndPostBody || meth == goidc.FromAll }
	inQuery := func() bool { return meth == goidc.FromAll }
	switch nd.Choice("where", 8) {
	case 0: // nowhere
	case 1:
		hdr = "Bearer " + at
		c.token = at
	case 2:
		hdr = []string{"bearer ", "BEARER ", "BeArEr "}[nd.Choice("case", 3)] + at
		c.token = at
	case 3: // header and elsewhere: the header wins
		hdr = "Bearer " + at
		c.token = at
		other = nd.Str("other")
		body.Set("access_token", other)
		query.Set("access_token", nd.Str("other"))
		nd.Assume(at != "")
	case 4:
		body.Set("access_token", at)
		if inBody() {
			c.token = at
		}
	case 5:
		query.Set("access_token", at)
		if inQuery() {
			c.token = at
		}
	case 6: // body or query next to another scheme or a bearer header without token
		hdr = []string{"Basic eDp5", "Bearer", "Bearer ", "x"}[nd.Choice("header", 4)]
		if nd.Bool("in_body") {
			body.Set("access_token", at)
			if inBody() {
				c.token = at
			}
		} else {
			query.Set("access_token", at)
			if inQuery() {
				c.token = at
			}
		}
	case 7: // another scheme
		hdr = nd.StrIn("scheme", "A-Za-z", 0, -1)
		nd.Assume(!strings.EqualFold(hdr, "bearer"))
		hdr += " " + at
	}
	c.r = newReq(anyMethod(), "/x", body, query)
	c.r.URL.Path = "/" + nd.Str("path")
	if hdr != "" {
		c.r.Header.Set("Authorization", hdr)
	}
	c.d.oldTok = newToken("token")
	c.d.info = newInfo(nd.Str("info.scope"))
	nd.Assume(c.d.oldTok.refreshed+c.d.oldTok.accessExp >= c.now)
	ok := c.rp.Validate(c.w, c.r, c.d)
	if c.token == "" {
		nd.Assert(!ok && challenged(c.w, 400, "invalid_request") && len(c.d.calls) == 0, "without a token in an enabled location the request is denied with invalid_request")
		nd.Reach("no token")
		return
	}
	nd.Assert(ok && c.w.status == 0, "a live token in an enabled location is admitted")
	f := c.d.find("FindOAuthTokenByAccessToken")
	nd.Assert(f != nil && c.d.count("FindOAuthTokenByAccessToken") == 1, "the token is looked up")
	if f != nil {
		nd.Assert(f.s[0] == c.token, "the token looked up is the one presented")
	}
	nd.Reach("token")
}

// C13_live: every answer of the data interface, every lifetime.
func C13_live() {
	c := newRP(goidc.FromHeader)
	c.r = newReq(anyMethod(), "/x", nil, nil)
	at := nd.StrIn("access_token", "^ ", 1, -1)
	c.r.Header.Set("Authorization", "Bearer "+at)
	c.forge()
	d := c.d.faulty()
	d.oldTok = newToken("token")
	d.info = newInfo(nd.Str("info.scope"))
	d.info.userId = nd.Int("uid", -maxT, maxT)
	ok := c.rp.Validate(c.w, c.r, d)
	live := d.oldTok.refreshed+d.oldTok.accessExp >= c.now
	ft, fi := d.find("FindOAuthTokenByAccessToken"), d.find("FindActiveAuthInfoById")
	nd.Assert(ft != nil && ft.s[0] == at, "the presented token is looked up")
	if ft == nil {
		return
	}
	if fi != nil && ft.ans == ansOK {
		nd.Assert(fi.i[0] == d.oldTok.authId, "the authorization looked up is the token's")
	}
	if ft.ans == ansOK && live && fi != nil && fi.ans == ansOK {
		nd.Assert(ok, "a live token of an active authorization is admitted")
		nd.Assert(c.identity(), "the X-OAUTH headers are exactly those of the authorization")
		nd.Assert(c.w.status == 0 && c.w.body == "", "an admitted request is not answered by the protector")
		nd.Reach("admitted")
		return
	}
	nd.Assert(!ok, "no other request is admitted")
	nd.Assert(c.denied(), "a denied request is answered with a 4xx or 5xx status")
	switch {
	case ft.ans == ansFailed:
		nd.Assert(challenged(c.w, 401, "invalid_token"), "an unknown token is invalid_token")
		nd.Reach("unknown")
	case ft.ans != ansOK:
		nd.Reach("fault 1")
	case !live:
		nd.Assert(challenged(c.w, 401, "invalid_token"), "an expired token is invalid_token")
		nd.Reach("expired")
	case fi != nil && fi.ans == ansFailed:
		nd.Assert(challenged(c.w, 401, "invalid_token"), "a token whose authorization is gone is invalid_token")
		nd.Reach("gone")
	default:
		nd.Assert(fi != nil, "the authorization is looked up")
		nd.Reach("fault 2")
	}
}
