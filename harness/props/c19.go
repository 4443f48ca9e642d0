package props

import (
	"crypto/rsa"

	"github.com/lyokato/goidc/prompt"
	"vharness/nd"
)

// nonePrompt: a prompt with none among its words, and whether it is valid.
func nonePrompt() (string, bool) {
	s, ws := words("prompt", 2+nd.Tier())
	var none, all []bool
	for _, w := range ws {
		none = append(none, w == "none")
		all = append(all, w == "none")
	}
	nd.Assume(nd.Or(none...))
	return s, nd.And(all...)
}

// quietEnd: the request ended without any screen, in exactly one answer.
func (c *authCase) quietEnd() *answer {
	nd.Assert(c.screens() == 0, "no screen is shown")
	a := c.answer()
	nd.Assert(a != nil && a.ok, "the request is answered at its redirect URI")
	return a
}

// completed: the request was completed for the authorization that was found.
func (c *authCase) completed(a *answer) {
	nd.Assert(a != nil && c.ret && !a.v.Has("error") && a.v.Get("code") == c.cb.code, "the request is completed")
	f := c.d.find("FindAuthInfoByUserIdAndClientId")
	nd.Assert(f != nil && f.ans == ansOK && f.i[0] == c.cb.uid && f.s[0] == c.p["client_id"], "the authorization is that of the login user for this client")
	s := c.d.find("CreateAuthSession")
	nd.Assert(s != nil && s.o == interface{}(c.d.info) && c.d.count("CreateOrUpdateAuthInfo") == 0, "the code is issued for that authorization, which stays as it is")
}

func (c *authCase) refused(a *answer, typ string) {
	nd.Assert(!c.ret && !c.artifacts() && c.d.count("CreateAuthSession") == 0, "nothing is issued")
	nd.Assert(a.isErr(typ, c.p["state"]), "the request is answered with the error "+typ)
	nd.Reach(typ)
}

// symAuthorization: an arbitrary authorization, and whether it covers a
// request for the scope with the given words.
func (c *authCase) symAuthorization(req []string) bool {
	s, ws := words("info.scope", 2+nd.Tier())
	c.d.info = newInfo(s)
	c.d.info.active = nd.Bool("info.active")
	c.d.n["FindAuthInfoByUserIdAndClientId"] = 3
	same := samePerm(req, ws)
	nd.Assume(nd.Or(same, nd.Not(nd.And(setLeq(req, ws), setLeq(ws, req)))))
	return nd.And(same, c.d.info.active, c.d.info.at+int64(c.pol.ConsentOmissionPeriod) > c.now)
}

var reqScopes = [][]string{{"openid"}, {"email", "openid"}}

func (c *authCase) chooseScope() []string {
	ws := reqScopes[nd.Choice("scope", len(reqScopes))]
	c.p["scope"] = ws[0]
	for _, w := range ws[1:] {
		c.p["scope"] += " " + w
	}
	return ws
}

// C19_prompt: every prompt with none in it, for every policy.
func C19_prompt() {
	c := newAuth()
	p, valid := nonePrompt()
	c.p["prompt"] = p
	pol := nd.Choice("policy", 6)
	c.d.client.nonePolicy = prompt.NonePromptPolicy([]int{0, 1, 2, 3, 4, -1}[pol])
	c.d.client.noConsent = prompt.NoConsentPromptPolicy(nd.Choice("no_consent_policy", 2))
	c.d.info = newInfo("openid")
	nd.Assume(c.d.info.at+int64(c.pol.ConsentOmissionPeriod) > c.now)
	c.cb.login = nd.Bool("login")
	c.cb.from = nd.Bool("from")
	c.p["login_hint"] = "user"
	c.p["id_token_hint"] = "x.y.z"
	c.run()
	a := c.quietEnd()
	switch {
	case !valid:
		c.refused(a, "invalid_request")
	case pol == 0 || pol > 3:
		c.refused(a, "interaction_required")
	case pol == 3:
		c.refused(a, "invalid_request")
	case !c.cb.login:
		c.refused(a, "login_required")
	default:
		c.completed(a)
		nd.Reach("completed")
	}
}

// C19_session: the two policies that need a login session.
func C19_session() {
	c := newAuth()
	c.p["prompt"] = "none"
	hinted := nd.Bool("hint_policy")
	c.d.client.nonePolicy = prompt.NonePromptPolicyAllowWithLoginSession
	if hinted {
		c.d.client.nonePolicy = prompt.NonePromptPolicyAllowIfLoginHintMatched
	}
	hint := nd.StrIn("login_hint", textClass, 0, -1)
	c.p["login_hint"] = hint
	covered := c.symAuthorization(c.chooseScope())
	c.cb.login = nd.Bool("login")
	c.cb.match = nd.Bool("match")
	c.run()
	a := c.quietEnd()
	f := c.d.find("FindAuthInfoByUserIdAndClientId")
	switch {
	case hinted && hint == "":
		c.refused(a, "invalid_request")
	case !c.cb.login:
		c.refused(a, "login_required")
	case hinted && !c.cb.match:
		c.refused(a, "invalid_request")
		nd.Assert(len(c.cb.matchAsked) > 0 && c.cb.matchAsked[0] == hint, "the hint is what is matched to the user")
	case f == nil:
		nd.Assert(false, "the authorization is looked up")
	case f.ans == ansFailed:
		c.refused(a, "consent_required")
	case f.ans != ansOK:
		c.refused(a, "server_error")
	case !covered:
		c.refused(a, "consent_required")
	default:
		c.completed(a)
		if hinted {
			nd.Assert(len(c.cb.matchAsked) > 0 && c.cb.matchAsked[0] == hint, "the hint is what is matched to the user")
			nd.Reach("completed with login_hint")
		} else {
			nd.Reach("completed with session")
		}
	}
}

// C19_id_token_hint: the policy that needs an ID token of the client.
func C19_id_token_hint() {
	c := newAuth()
	c.p["prompt"] = "none"
	c.d.client.nonePolicy = prompt.NonePromptPolicyAllowIfIdTokenHintMatched
	h := symAssertion()
	c.p["id_token_hint"] = h.text
	c.d.client.key = h.key
	if k, ok := h.key.(*rsa.PublicKey); ok && h.alg[0] == 'R' {
		// what signs the client's ID tokens
		p := nd.RSAKey(0)
		if k == &p.PublicKey {
			c.d.client.key = p
		}
	}
	c.d.info = newInfo("openid")
	c.d.info.active = nd.Bool("info.active")
	covered := nd.And(c.d.info.active, c.d.info.at+int64(c.pol.ConsentOmissionPeriod) > c.now)
	c.d.n["FindAuthInfoByUserIdAndClientId"] = 2
	c.cb.login = nd.Bool("login")
	c.cb.match = nd.Bool("match")
	c.run()
	a := c.quietEnd()
	f := c.d.find("FindAuthInfoByUserIdAndClientId")
	valid := nd.And(h.parses, h.hasSub, c.d.client.key != nil, h.genuine, h.fresh(c.now))
	switch {
	case !valid:
		c.refused(a, "invalid_request")
	case !c.cb.match:
		c.refused(a, "invalid_request")
		nd.Assert(len(c.cb.matchAsked) > 0 && c.cb.matchAsked[0] == h.sub, "the hint's subject is what is matched to the user")
	case f == nil || f.ans == ansFailed:
		c.refused(a, "consent_required")
	case !covered:
		c.refused(a, "consent_required")
	default:
		c.completed(a)
		nd.Assert(len(c.cb.matchAsked) > 0 && c.cb.matchAsked[0] == h.sub, "the hint's subject is what is matched to the user")
		nd.Reach("completed with " + h.alg)
	}
}
