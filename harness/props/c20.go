package props

import (
	"github.com/lyokato/goidc/prompt"
	"vharness/nd"
)

// interactivePrompt: no prompt, or a valid one without none; some with
// repeated words.
func interactivePrompt() (string, []string) {
	n := nd.Choice("prompt.words", 3+nd.Tier())
	all := []string{prompt.Login, prompt.Consent, prompt.SelectAccount}
	s := ""
	var ws []string
	for i := 0; i < n; i++ {
		w := all[nd.Choice("prompt.word", 3)]
		if i > 0 {
			s += " "
		}
		s += w
		ws = append(ws, w)
	}
	return s, ws
}

func has(ws []string, w string) bool {
	for _, x := range ws {
		if x == w {
			return true
		}
	}
	return false
}

// C20_interactive: every login and consent state of an interactive request.
func C20_interactive() {
	c := newAuth()
	p, ws := interactivePrompt()
	c.p["prompt"] = p
	c.d.client.noConsent = prompt.NoConsentPromptPolicy([]int{0, 1, 2}[nd.Choice("policy", 3)])
	c.d.client.nonePolicy = prompt.NonePromptPolicy(nd.Choice("none_policy", 2))
	covered := c.symAuthorization(c.chooseScope())
	c.cb.login = nd.Bool("login")
	c.cb.from = nd.Bool("from")
	c.cb.match = nd.Bool("match")
	t := responseTypes[nd.Choice("rt", 2)*6]
	c.p["response_type"] = t.rt
	c.p["nonce"] = "n"
	c.d.token = newToken("new")
	c.run()
	c.interactiveEnd(ws, covered, true)
}

// interactiveEnd: where an interactive request that passed validation ends.
func (c *authCase) interactiveEnd(ws []string, covered, young bool) {
	a := c.answer()
	nd.Assert(len(c.cb.errs) == 0, "no error screen is shown")
	f := c.d.find("FindAuthInfoByUserIdAndClientId")
	omit := !has(ws, prompt.Consent) && c.d.client.noConsent == prompt.NoConsentPromptPolicyOmitConsentIfCan
	switch {
	case !c.cb.login || has(ws, prompt.Login) && !c.cb.from || !young:
		nd.Assert(len(c.cb.logins) == 1 && len(c.cb.consents) == 0 && a == nil && !c.ret, "a request that needs a login ends in the login screen")
		nd.Assert(!c.artifacts(), "nothing is issued")
		nd.Reach("login screen")
	case omit && f != nil && f.ans != ansOK && f.ans != ansFailed:
		nd.Assert(c.screens() == 0 && !c.artifacts() && !c.ret && a.isErr("server_error", c.p["state"]), "a failure is reported")
		nd.Reach("server_error")
	case omit && f != nil && f.ans == ansOK && covered:
		nd.Assert(c.screens() == 0 && c.ret && a != nil && a.ok && !a.v.Has("error") && a.v.Get("code") == c.cb.code, "a covered request of a client that may omit consent is completed")
		nd.Assert(f.i[0] == c.cb.uid && f.s[0] == c.p["client_id"], "the authorization is that of the login user for this client")
		s := c.d.find("CreateAuthSession")
		nd.Assert(s != nil && s.o == interface{}(c.d.info) && c.d.count("CreateOrUpdateAuthInfo") == 0, "the code is issued for that authorization, which stays as it is")
		nd.Reach("completed")
	default:
		nd.Assert(!omit || f != nil, "the authorization is looked up")
		nd.Assert(len(c.cb.consents) == 1 && len(c.cb.logins) == 0 && a == nil, "every other request ends in the consent screen")
		nd.Assert(!c.artifacts(), "nothing is issued")
		nd.Assert(len(c.cb.consentC) == 1 && c.cb.consentC[0] == interface{}(c.d.client), "consent is asked for the client of the request")
		nd.Reach("consent screen")
	}
}
