package props

import (
	"github.com/lyokato/goidc/authorization"
	"vharness/nd"
)

// C16_uri: every client_id and redirect_uri, lookup answer and acceptance.
func C16_uri() {
	c := newAuth()
	c.p["client_id"] = nd.Str("client_id")
	if nd.Bool("empty_uri") {
		c.p["redirect_uri"] = ""
	}
	accepted := nd.Bool("accepted")
	uri := c.uri()
	c.d.client.uriOK = func(u string) bool { return accepted && u == uri }
	c.d.n["FindClientById"] = 5
	c.faultsLater()
	rt := nd.Choice("rt", 4)
	c.p["response_type"] = []string{"code", "id_token token", "bogus", ""}[rt]
	c.p["response_mode"] = []string{"", "fragment", "form_post", "bogus"}[nd.Choice("rmode", 4)]
	c.p["prompt"] = []string{"", "none", "consent"}[nd.Choice("prompt", 3)]
	c.cb.login = nd.Bool("login")
	c.d.client.flowOK = nd.Bool("flow_ok")
	c.run()
	f := c.d.find("FindClientById")
	screen := func(kinds ...int) {
		nd.Assert(c.w.status == 0 && len(c.w.h) == 0, "nothing is sent to a redirect URI that was not accepted")
		nd.Assert(len(c.cb.logins)+len(c.cb.consents) == 0 && !c.artifacts() && !c.ret, "no other screen is shown and nothing is issued")
		ok := len(c.cb.errs) == 1
		if ok {
			ok = false
			for _, k := range kinds {
				ok = ok || c.cb.errs[0] == k
			}
		}
		nd.Assert(ok, "exactly one error screen of the matching kind is shown")
	}
	if c.p["client_id"] == "" && uri == "" {
		screen(authorization.ErrMissingClientId, authorization.ErrMissingRedirectURI)
		nd.Reach("both missing")
		return
	}
	if c.p["client_id"] == "" {
		screen(authorization.ErrMissingClientId)
		nd.Reach("no client_id")
		return
	}
	if uri == "" {
		screen(authorization.ErrMissingRedirectURI)
		nd.Reach("no redirect_uri")
		return
	}
	nd.Assert(f != nil && f.s[0] == c.p["client_id"], "the client named by the request is looked up")
	if f == nil {
		return
	}
	switch {
	case f.ans == ansFailed:
		screen(authorization.ErrMissingClientId)
		nd.Reach("unknown client")
		return
	case f.ans != ansOK:
		screen(authorization.ErrServerError)
		nd.Reach("lookup failed")
		return
	case !accepted:
		screen(authorization.ErrInvalidRedirectURI)
		nd.Reach("uri refused")
		return
	}
	nd.Assert(len(c.cb.errs) == 0, "no error screen is shown once the URI is accepted")
	nd.Assert(len(c.d.client.urisAsked) > 0 && c.d.client.urisAsked[0] == uri, "the client was asked about exactly this URI")
	if a := c.answer(); a != nil {
		nd.Assert(a.ok, "whatever is sent goes to exactly the redirect_uri of the request")
		nd.Reach("sent in " + a.mode)
	} else {
		nd.Assert(c.screens() == 1, "otherwise one screen is shown")
		nd.Reach("screen")
	}
}

// faultsLater: everything but the first client lookup may fail.
func (c *authCase) faultsLater() {
	for _, m := range []string{"FindAuthInfoByUserIdAndClientId", "CreateAuthSession"} {
		c.d.n[m] = 2
	}
	c.cb.n["ChooseLocale"] = 2
	c.d.info = newInfo("openid")
}

// C16_registered: the client has one registered URI, and the request names any other, however
// alike: nothing is sent there.
func C16_registered() {
	c := newAuth()
	c.p["redirect_uri"] = anyURI("requested")
	registered := anyURI("registered")
	uri := c.uri()
	nd.Assume(uri != "" && uri != registered)
	c.d.client.uriOK = func(u string) bool { return u == registered }
	c.p["response_type"] = []string{"code", "id_token token", "bogus"}[nd.Choice("rt", 3)]
	c.p["response_mode"] = []string{"", "form_post", "bogus"}[nd.Choice("rmode", 3)]
	c.p["prompt"] = []string{"", "none"}[nd.Choice("prompt", 2)]
	c.cb.login = nd.Bool("login")
	c.run()
	nd.Assert(c.w.status == 0 && len(c.w.h) == 0 && c.w.body == "", "nothing is sent to another URI than the registered one")
	nd.Assert(len(c.cb.logins)+len(c.cb.consents) == 0 && !c.artifacts() && !c.ret, "nothing else happens for another URI")
	nd.Assert(len(c.cb.errs) == 1 && c.cb.errs[0] == authorization.ErrInvalidRedirectURI, "another URI ends in the error screen for it")
	nd.Reach("another URI")
}

// anyURI is a URI with any host, port, path, query and fragment, or none of those.
func anyURI(name string) string {
	u := []string{"", "http://", "https://", "HTTPS://", "//"}[nd.Choice(name+"_scheme", 5)]
	return u + nd.StrIn(name, "!-~", 0, -1)
}
