package props

import (
	"github.com/lyokato/goidc/flow"
	"github.com/lyokato/goidc/response_mode"
	"vharness/nd"
)

var modes = []string{"query", "fragment", "form_post"}

func modeRank(m string) int {
	for i, x := range modes {
		if x == m {
			return i
		}
	}
	return -1
}

// C17_mode: every response type, requested mode and policy; the response is a
// refusal by the client, a direct completion, or a screen.
func C17_mode() {
	c := newAuth()
	t := responseTypes[nd.Choice("rt", len(responseTypes))]
	c.p["response_type"] = t.rt
	c.p["nonce"] = "n"
	var rmode string
	rank := -1
	switch k := nd.Choice("rmode", 5); k {
	case 0:
	case 4: // anything else
		rmode = nd.StrIn("mode", textClass, 1, -1)
		nd.Assume(nd.And(rmode != modes[0], rmode != modes[1], rmode != modes[2]))
	default:
		rmode = modes[k-1]
		rank = k - 1
	}
	c.p["response_mode"] = rmode
	dc, di := nd.Choice("default_code", 3), nd.Choice("default_implicit", 3)
	c.pol.DefaultAuthorizationCodeFlowResponseMode = modes[dc]
	c.pol.DefaultImplicitFlowResponseMode = modes[di]
	c.pol.RequireResponseModeSecurityLevelCheck = nd.Bool("level_check")
	c.pol.IgnoreInvalidResponseMode = nd.Bool("ignore_invalid")
	def := dc
	if t.typ != flow.AuthorizationCode {
		def = di
	}
	end := nd.Choice("end", 3)
	switch end {
	case 0:
		c.d.client.flowOK = false
	case 1:
		c.d.client.noConsent = 1
		c.d.info = newInfo("openid")
		c.d.token = newToken("new")
		nd.Assume(c.d.info.at+int64(c.pol.ConsentOmissionPeriod) > c.now)
	case 2:
	}
	c.run()
	want, reject := rank, false
	switch {
	case rmode == "":
		want = def
	case rank < 0, c.pol.RequireResponseModeSecurityLevelCheck && rank < def:
		want = def
		reject = !c.pol.IgnoreInvalidResponseMode
	}
	a := c.answer()
	if reject {
		nd.Assert(a.isErr("invalid_request", c.p["state"]) && a.mode == modes[def], "an inadmissible mode is rejected with invalid_request in the flow's default mode")
		nd.Assert(c.screens() == 0 && !c.artifacts(), "an inadmissible mode yields no screen and no artifact")
		nd.Reach("rejected")
		return
	}
	if end == 2 {
		nd.Assert(a == nil && len(c.cb.consents) == 1 && c.screens() == 1, "the consent screen is shown")
		if len(c.cb.consents) == 1 {
			nd.Assert(c.cb.consents[0].ResponseMode == modes[want], "the pending request carries the admissible mode")
		}
		nd.Reach("consent")
		return
	}
	nd.Assert(a != nil && a.ok, "an answer is sent to the redirect URI")
	if a == nil {
		return
	}
	nd.Assert(a.mode == modes[want], "the answer is delivered in the admissible mode")
	if c.pol.RequireResponseModeSecurityLevelCheck {
		nd.Assert(modeRank(a.mode) >= def, "the answer is never delivered by a mode weaker than the flow's default")
	}
	if end == 0 {
		nd.Assert(a.isErr("unauthorized_client", c.p["state"]), "a refused flow is unauthorized_client")
		nd.Reach("error in " + a.mode)
	} else {
		nd.Assert(c.ret && !a.v.Has("error"), "a request that needs no interaction is completed")
		nd.Reach("success in " + a.mode)
	}
}

// C17_complete: a pending request is completed and cancelled in its own mode.
func C17_complete() {
	c := newAuth()
	req, _ := c.pending()
	if nd.Choice("what", 2) == 0 {
		c.endpoint().CompleteRequest(c.w, consentReq(), c.cb)
		nd.Reach("complete")
	} else {
		c.endpoint().CancelRequest(c.w, consentReq(), c.cb)
		nd.Reach("cancel")
	}
	a := c.answer()
	nd.Assert(a != nil && a.ok && a.mode == req.ResponseMode, "the answer is delivered in the pending request's mode")
}

// C17_levels: the mode helpers on every string.
func C17_levels() {
	m := nd.Str("mode")
	nd.Assert(nd.Iff(response_mode.Validate(m), nd.Or(m == "query", m == "fragment", m == "form_post")), "exactly the three modes are valid")
	i, j := nd.Choice("a", 3), nd.Choice("b", 3)
	nd.Assert(response_mode.CompareSecurityLevel(modes[i], modes[j]) == (i >= j), "modes rank query < fragment < form_post")
	nd.Reach("done")
}
