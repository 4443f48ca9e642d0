package props

import (
	"net/http"

	"github.com/lyokato/goidc/prompt"
	"vharness/nd"
)

// outcome is all that a request leads to, but for the text shown by user
// agents that do not follow redirects.
func (c *authCase) outcome() string {
	s := &step{kind: kAuthorize, d: c.d, cb: c.cb, w: c.w, ret: c.ret}
	if c.w.status == 302 {
		s.w = &recorder{status: 302, snap: http.Header{"Location": c.w.snap["Location"]}}
	}
	return s.digest()
}

// twice: the request by GET and by POST has the same outcome.
func (c *authCase) twice() {
	run := func(post bool) string {
		c.post = post
		c.run()
		return c.outcome()
	}
	get := nd.Alone(func() string { return run(false) })
	nd.Assert(run(true) == get, "by POST the request has the outcome it has by GET")
	switch a := c.answer(); {
	case a == nil:
		nd.Reach("screen")
	case a.err() != "":
		nd.Reach("error " + a.err())
	default:
		nd.Reach("completed")
	}
}

// C40_parameters: every parameter of any text.
func C40_parameters() {
	c := newAuth()
	c.d.info, c.d.token = newInfo("openid"), newToken("new")
	c.p["response_type"] = []string{"code", "id_token token", "bogus"}[nd.Choice("rt", 3)]
	c.p["response_mode"] = []string{"", "form_post", "bogus"}[nd.Choice("mode", 3)]
	c.p["prompt"] = []string{"", "none", "consent", "none login"}[nd.Choice("prompt", 4)]
	switch nd.Choice("other", 5) {
	case 1:
		c.p["display"] = "popup"
	case 2:
		c.p["display"] = "x"
	case 3:
		c.p["max_age"] = "100"
	case 4:
		c.p["max_age"] = "x"
	}
	c.p["nonce"] = nd.StrIn("nonce", textClass, 0, 200)
	for _, k := range []string{"code_verifier", "ui_locales", "id_token_hint", "login_hint"} {
		c.p[k] = nd.StrIn(k, textClass, 1-nd.Tier(), 200)
	}
	c.p["client_id"] = nd.StrIn("client_id", textClass, 0, -1)
	c.d.client.nonePolicy = prompt.NonePromptPolicy(1 + nd.Choice("policy", 2))
	c.d.client.noConsent = 1
	c.cb.login = nd.Bool("login")
	c.twice()
}
