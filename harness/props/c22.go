package props

import (
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/flow"
	"vharness/nd"
)

// shown: the one request handed to a screen, nil if none or several.
func (c *authCase) shown() *authorization.Request {
	all := append(append([]*authorization.Request{}, c.cb.logins...), c.cb.consents...)
	if len(all) != 1 || c.screens() != 1 {
		return nil
	}
	return all[0]
}

// rejected: an error redirect of one of the types, and nothing else.
func (c *authCase) rejected(typ, why string) {
	nd.Assert(c.screens() == 0 && !c.artifacts() && !c.ret, "no screen and no artifact: "+why)
	a := c.answer()
	nd.Assert(a != nil && a.ok && a.err() != "" && a.isErr(a.err(), c.p["state"]), "an error redirect is sent: "+why)
	if typ != "" {
		nd.Assert(a.isErr(typ, c.p["state"]), "the error is "+typ+": "+why)
	}
	nd.Reach(why)
}

// C22_scope: every scope of a few words, in every flow.
func C22_scope() {
	c := newAuth()
	t := responseTypes[nd.Choice("rt", len(responseTypes))]
	c.p["response_type"] = t.rt
	c.p["nonce"] = "n"
	consent := nd.Bool("consent")
	if consent {
		c.p["prompt"] = []string{"consent", "login consent", "consent select_account"}[nd.Choice("prompt", 3)]
	} else {
		c.p["prompt"] = []string{"", "login", "select_account"}[nd.Choice("prompt", 3)]
	}
	c.pol.AllowEmptyScope = nd.Bool("allow_empty")
	c.d.client.scopeOK = nd.Bool("scope_ok")
	c.cb.login = nd.Bool("login")
	n := nd.Choice("scope.words", 4+nd.Tier())
	s := ""
	var ws []string
	others, openid, offline := 0, false, false
	for i := 0; i < n; i++ {
		w := ""
		switch nd.Choice("scope.word", 3) {
		case 0:
			w, openid = "openid", true
		case 1:
			w, offline = "offline_access", true
		case 2:
			w = nd.StrIn("scope", "!#-Z_a-}", 1, -1)
			nd.Assume(nd.And(w != "openid", w != "offline_access"))
			others++
		}
		if i > 0 {
			s += " "
		}
		s += w
		ws = append(ws, w)
	}
	c.p["scope"] = s
	c.run()
	eff := s
	if offline && (t.typ == flow.Implicit || !consent) {
		eff = joinWhere(ws, "offline_access")
		offline = false
	}
	switch {
	case offline && !c.pol.AllowEmptyScope && others == 0:
		c.rejected("", "offline_access alone")
	case eff == "" && !c.pol.AllowEmptyScope:
		c.rejected("", "empty scope")
	case t.idt && !openid:
		c.rejected("", "openid missing")
	case !c.d.client.scopeOK:
		c.rejected("invalid_scope", "scope refused")
	default:
		r := c.shown()
		nd.Assert(r != nil, "the request proceeds to a screen")
		nd.Assert(r != nil && r.Scope == eff, "the request carries the scope")
		nd.Reach("proceeds")
	}
	for i, asked := range c.d.client.scopeAsked {
		nd.Assert(asked == eff && c.d.client.scopeFlow[i] == t.typ, "the client is asked about the scope that is used, and the flow")
	}
}

// C22_request: every parameter, and what the screens are given.
func C22_request() {
	c := newAuth()
	t := responseTypes[nd.Choice("rt", len(responseTypes))]
	c.p["response_type"] = t.rt
	for _, k := range []string{"nonce", "code_verifier", "ui_locales", "id_token_hint", "login_hint"} {
		c.p[k] = nd.StrIn(k, textClass, 0, -1)
	}
	c.p["client_id"] = nd.StrIn("client_id", textClass, 1, -1)
	c.cb.locale = nd.Str("locale")
	c.pol.MaxNonceLength = int(nd.Int("max_nonce", 0, 1000))
	c.pol.MaxCodeVerifierLength = int(nd.Int("max_verifier", 0, 1000))
	rank := nd.Choice("rmode", 4)
	if rank < 3 {
		c.p["response_mode"] = modes[rank]
	}
	c.pol.RequireResponseModeSecurityLevelCheck = false
	given := nd.Bool("max_age_given")
	age := int64(0)
	if given {
		age = nd.Int("max_age", 0, 1<<40)
		c.pol.MinMaxAge = 0
		c.maxAge(age)
	}
	c.cb.login = nd.Bool("login")
	c.run()
	n, v := c.p["nonce"], c.p["code_verifier"]
	switch {
	case t.idt && t.typ != flow.AuthorizationCode && n == "":
		c.rejected("invalid_request", "nonce missing")
		return
	case len(n) > c.pol.MaxNonceLength:
		c.rejected("invalid_request", "nonce too long")
		return
	case len(v) > c.pol.MaxCodeVerifierLength:
		c.rejected("invalid_request", "verifier too long")
		return
	}
	r := c.shown()
	nd.Assert(r != nil, "the request proceeds to a screen")
	if r == nil {
		return
	}
	mode := c.p["response_mode"]
	if rank == 3 {
		mode = "query"
		if t.typ != flow.AuthorizationCode {
			mode = "fragment"
		}
	}
	nd.Assert(r.Flow != nil && r.Flow.Type == t.typ && r.Flow.RequireAccessToken == t.tok && r.Flow.RequireIdToken == t.idt, "the flow is that of the response type")
	nd.Assert(r.ClientId == c.p["client_id"], "the client is that of the request")
	nd.Assert(r.RedirectURI == c.uri(), "the redirect URI is that of the request")
	nd.Assert(r.ResponseMode == mode, "the mode is that of the request")
	nd.Assert(nd.And(r.State == c.p["state"], r.Nonce == n, r.CodeVerifier == v), "state, nonce and verifier are those of the request")
	nd.Assert(nd.And(r.IdTokenHint == c.p["id_token_hint"], r.LoginHint == c.p["login_hint"]), "the hints are those of the request")
	nd.Assert(r.UILocale == c.cb.locale && len(c.cb.localesAsked) == 1 && c.cb.localesAsked[0] == c.p["ui_locales"], "the locale is the one chosen for the request's locales")
	nd.Assert(r.MaxAge == age && r.Scope == "openid" && r.Prompt == "" && r.Display == "page", "max_age, scope, prompt and display are those of the request")
	if len(c.cb.logins) == 1 {
		nd.Reach("login screen")
	} else {
		nd.Reach("consent screen")
	}
}

// C22_words: every display and prompt.
func C22_words() {
	c := newAuth()
	displays := []string{"", "page", "popup", "touch", "wap"}
	k := nd.Choice("display.kind", len(displays)+1)
	d := ""
	if k < len(displays) {
		d = displays[k]
	} else {
		d = nd.StrIn("display", textClass, 1, -1)
		for _, x := range displays {
			nd.Assume(d != x)
		}
	}
	c.p["display"] = d
	p, ws := "", []string(nil)
	if nd.Bool("prompt_given") {
		p, ws = words("prompt", 2+nd.Tier())
		nd.Assume(p != "")
	}
	c.p["prompt"] = p
	c.cb.login = nd.Bool("login")
	c.d.client.nonePolicy = 1
	c.d.info = newInfo("openid")
	c.run()
	var known, none, other []bool
	for _, w := range ws {
		o := nd.Or(w == "login", w == "consent", w == "select_account")
		known = append(known, nd.Or(w == "none", o))
		none = append(none, w == "none")
		other = append(other, o)
	}
	valid := nd.And(nd.And(known...), nd.Not(nd.And(nd.Or(none...), nd.Or(other...))))
	switch {
	case k == len(displays):
		c.rejected("invalid_request", "unknown display")
	case !valid:
		c.rejected("invalid_request", "bad prompt")
	case nd.Or(none...):
		nd.Assert(c.screens() == 0, "prompt=none shows no screen")
		nd.Reach("none")
	default:
		r := c.shown()
		nd.Assert(r != nil, "the request proceeds to a screen")
		if r == nil {
			return
		}
		if d == "" {
			d = "page"
		}
		nd.Assert(r.Display == d && r.Prompt == p, "the request carries display and prompt")
		nd.Reach("proceeds")
	}
}
