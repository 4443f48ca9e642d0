package props

import (
	"github.com/lyokato/goidc/prompt"
	"vharness/nd"
)

// failed: the name of the failed call that decides the answer; "" if none did.
// An authorization that is merely not found is no failure.
func (c *authCase) failure() (name string, notFound bool) {
	for i := range c.d.calls {
		k := &c.d.calls[i]
		if k.ans == ansFailed && k.name == "FindAuthInfoByUserIdAndClientId" {
			notFound = true
		} else if k.ans != ansOK {
			return k.name, false
		}
	}
	if len(c.cb.failed) > 0 {
		return c.cb.failed[0], false
	}
	return "", notFound
}

// reported: nothing was delivered, and the error is.
func (c *authCase) reported(typ, what string) {
	a := c.answer()
	nd.Assert(!c.ret, "failure is reported to the caller: "+what)
	nd.Assert(len(c.cb.errs) == 0, "no error screen once the redirect URI is validated")
	nd.Assert(a != nil && a.isErr(typ, c.p["state"]), "the failure is reported as "+typ+" with the state: "+what)
	nd.Reach(typ + " " + what)
}

// C24_handle: any call may fail in any way while a request is handled.
func C24_handle() {
	c := newAuth()
	none := c.eventful()
	c.run()
	a := c.answer()
	nd.Assert(a == nil || a.ok, "whatever is sent is sent to the redirect URI")
	what, notFound := c.failure()
	delivered := a != nil && (a.v.Has("code") || a.v.Has("access_token") || a.v.Has("id_token"))
	switch {
	case what != "":
		nd.Assert(!delivered, "nothing is delivered after a failure")
		c.reported("server_error", what)
	case notFound && none:
		nd.Assert(!delivered, "nothing is delivered without an authorization")
		c.reported("consent_required", "not found")
	case a != nil && a.err() != "":
		nd.Assert(!delivered && !c.ret, "nothing is delivered with an error")
		nd.Assert(a.isErr(a.err(), c.p["state"]), "the error carries the state")
		nd.Reach("error")
	case a != nil:
		nd.Assert(delivered && c.ret && a.hasState(c.p["state"]), "a completed request carries the state")
		nd.Reach("completed")
	default:
		nd.Assert(c.screens() == 1, "otherwise one screen is shown")
		nd.Reach("screen")
	}
}

// eventful: a request that gets past its validation, where any call may fail.
func (c *authCase) eventful() (none bool) {
	t := responseTypes[nd.Choice("rt", len(responseTypes))]
	c.p["response_type"] = t.rt
	c.p["response_mode"] = modes[nd.Choice("mode", 3)]
	c.pol.RequireResponseModeSecurityLevelCheck = false
	c.p["nonce"] = "n"
	switch k := nd.Choice("kind", 7); k {
	case 0, 1, 2:
		c.p["prompt"] = "none"
		none = true
		c.d.client.nonePolicy = prompt.NonePromptPolicy(k + 1)
		c.p["login_hint"] = "user"
		c.p["id_token_hint"] = hsToken("user", "client", c.now, "k")
	case 3:
		c.p["prompt"] = "login"
	case 4:
		c.p["prompt"] = "consent"
	case 5:
		c.d.client.noConsent = 1
	case 6:
		c.d.client.noConsent = 1
		c.p["prompt"] = "login select_account"
	}
	if nd.Bool("max_age") {
		c.p["max_age"] = "100"
	}
	c.cb.login = nd.Bool("login")
	c.cb.from = nd.Bool("from")
	c.cb.match = nd.Bool("match")
	c.d.info = newInfo("openid")
	c.d.token = newToken("new")
	c.d.client.alg = []string{"HS256", "bogus"}[nd.Choice("alg", 2)]
	c.d.def, c.cb.def = 5, 2
	c.d.n["CreateAuthSession"] = 4 // it returns nothing but an error
	// the first lookup of the client is decided by C16
	c.d.n["FindClientById"] = 1
	c.cb.hooks = map[string]func(){"ChooseLocale": func() { c.d.n["FindClientById"] = 5 }}
	return
}

// C24_complete: any call may fail in any way while a request is completed.
func C24_complete() {
	c := newAuth()
	c.pending()
	c.d.def, c.cb.def = 5, 2
	c.d.n["CreateAuthSession"] = 4 // it returns nothing but an error
	c.cb.n["Continue"] = 3
	c.d.client.alg = []string{"HS256", "bogus"}[nd.Choice("alg", 2)]
	c.ret = c.endpoint().CompleteRequest(c.w, consentReq(), c.cb)
	a := c.answer()
	if a == nil {
		nd.Assert(!c.ret && len(c.w.h) == 0 && c.d.count("CreateOrUpdateAuthInfo")+c.d.count("CreateAuthSession")+c.d.count("CreateOAuthToken") == 0, "without a pending request nothing happens")
		nd.Assert(c.screens() == 0 && len(c.cb.calls) == 1 && c.cb.calls[0] == "Continue", "only the pending request was asked for")
		nd.Reach("no request")
		return
	}
	nd.Assert(a.ok, "whatever is sent is sent to the redirect URI")
	delivered := a.v.Has("code") || a.v.Has("access_token") || a.v.Has("id_token")
	what, _ := c.failure()
	switch {
	case what != "":
		nd.Assert(!delivered, "nothing is delivered after a failure")
		c.reported("server_error", what)
	case a.err() != "":
		nd.Assert(!delivered, "nothing is delivered with an error")
		nd.Assert(c.d.client.alg == "bogus", "an error has a cause")
		c.reported("server_error", "ID token")
	default:
		nd.Assert(delivered && c.ret && a.hasState(c.p["state"]), "a completed request carries the state")
		nd.Reach("completed")
	}
}
