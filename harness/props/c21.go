package props

import (
	"net/url"
	"strconv"

	"github.com/lyokato/goidc/prompt"
	"vharness/nd"
)

// maxAge makes the request carry a max_age of the given number of seconds.
func (c *authCase) maxAge(v int64) { c.p["max_age"] = strconv.Itoa(int(v)) }

// C21_interactive: every max_age and age of the authentication.
func C21_interactive() {
	c := newAuth()
	p, ws := interactivePrompt()
	c.p["prompt"] = p
	v := nd.Int("max_age", 0, maxTime)
	c.pol.MinMaxAge = int(nd.Int("min_max_age", 0, maxTime))
	c.pol.MaxMaxAge = int(nd.Int("max_max_age", 0, maxTime))
	given := nd.Bool("given")
	if given {
		c.maxAge(v)
	}
	c.d.client.noConsent = prompt.NoConsentPromptPolicy(nd.Choice("policy", 2))
	c.d.info = newInfo("openid")
	covered := c.d.info.at+int64(c.pol.ConsentOmissionPeriod) > c.now
	c.cb.login = nd.Bool("login")
	c.cb.from = nd.Bool("from")
	c.run()
	if given && nd.Or(v < int64(c.pol.MinMaxAge), v > int64(c.pol.MaxMaxAge)) {
		c.badMaxAge()
		return
	}
	old := nd.And(given, c.now-c.cb.authTime > v)
	c.interactiveEnd(ws, covered, !old)
}

func (c *authCase) badMaxAge() {
	nd.Assert(c.screens() == 0 && !c.artifacts() && !c.ret, "a bad max_age yields no screen and no artifact")
	nd.Assert(c.answer().isErr("invalid_request", c.p["state"]), "a bad max_age is rejected with invalid_request")
	nd.Reach("rejected")
}

// C21_none: prompt=none, for every policy, max_age and age.
func C21_none() {
	c := newAuth()
	c.p["prompt"] = "none"
	v := nd.Int("max_age", 0, maxTime)
	c.pol.MinMaxAge = int(nd.Int("min_max_age", 0, maxTime))
	c.pol.MaxMaxAge = int(nd.Int("max_max_age", 0, maxTime))
	c.maxAge(v)
	pol := nd.Choice("policy", 4)
	c.d.client.nonePolicy = prompt.NonePromptPolicy(pol)
	c.p["login_hint"] = "user"
	c.p["id_token_hint"] = hsToken("user", "client", c.now, "k")
	c.d.info = newInfo("openid")
	covered := c.d.info.at+int64(c.pol.ConsentOmissionPeriod) > c.now
	c.cb.login = nd.Bool("login")
	t := responseTypes[nd.Choice("rt", 4)]
	c.p["response_type"] = t.rt
	c.p["nonce"] = "n"
	c.d.token = newToken("new")
	c.run()
	if nd.Or(v < int64(c.pol.MinMaxAge), v > int64(c.pol.MaxMaxAge)) {
		c.badMaxAge()
		return
	}
	a := c.quietEnd()
	old := c.now-c.cb.authTime > v
	allowed := pol == 3 || pol > 0 && c.cb.login
	switch {
	case allowed && old:
		nd.Assert(!c.ret && !c.artifacts(), "nothing is issued for an authentication older than max_age")
		if covered {
			c.refused(a, "login_required")
		}
	case allowed && covered:
		nd.Assert(c.ret && !a.v.Has("error"), "a request with a recent authentication is completed")
		nd.Reach("completed")
	default:
		nd.Assert(!c.ret && !c.artifacts() && a.err() != "", "others are refused")
		nd.Reach("refused")
	}
}

// C21_syntax: every short text as max_age.
func C21_syntax() {
	c := newAuth()
	c.p["redirect_uri"], c.p["state"] = "https://c/", "s"
	c.cb.code = "code"
	s := nd.BytesIn("max_age", "", 4+nd.Tier())
	c.pol.MinMaxAge, c.pol.MaxMaxAge = 60, 3600
	q := url.Values{}
	for k, v := range c.p {
		q.Set(k, v)
	}
	q.Set("max_age", s)
	r := newReq("GET", "/authorize", nil, nil)
	r.Form = q
	c.ret = c.endpoint().HandleRequest(c.w, r, c.cb)
	d := s
	if len(d) > 0 && (d[0] == '+' || d[0] == '-') {
		d = d[1:]
	}
	v, ok := 0, len(d) > 0
	for i := 0; i < len(d); i++ {
		ok = ok && '0' <= d[i] && d[i] <= '9'
		v = v*10 + int(d[i]) - '0'
	}
	if len(s) > 0 && s[0] == '-' {
		v = -v
	}
	switch {
	case s == "":
		nd.Assert(c.screens() == 1, "no max_age is no limit")
		nd.Reach("none")
	case !ok || v < 60 || v > 3600:
		c.badMaxAge()
	default:
		nd.Assert(c.screens() == 1, "a max_age within the bounds is accepted")
		sent := append(c.cb.consents, c.cb.logins...)
		nd.Assert(len(sent) == 1 && sent[0].MaxAge == int64(v), "the request carries the max_age")
		nd.Reach("accepted")
	}
}
