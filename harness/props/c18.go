package props

import (
	"github.com/lyokato/goidc/flow"
	"vharness/nd"
)

// C18_judge: every response_type of up to the bound of words.
func C18_judge() {
	s, ws := words("rt", 4+nd.Tier())
	f, err := flow.JudgeByResponseType(s)
	is := func(names ...string) bool {
		if len(ws) != len(names) {
			return false
		}
		ok := true
		for _, n := range names {
			ok = nd.And(ok, member(ws, n))
		}
		return ok
	}
	for _, t := range []struct {
		names    []string
		typ      flow.FlowType
		tok, idt bool
	}{
		{[]string{"code"}, flow.AuthorizationCode, false, false},
		{[]string{"token"}, flow.Implicit, true, false},
		{[]string{"id_token"}, flow.Implicit, false, true},
		{[]string{"token", "id_token"}, flow.Implicit, true, true},
		{[]string{"code", "token"}, flow.Hybrid, true, false},
		{[]string{"code", "id_token"}, flow.Hybrid, false, true},
		{[]string{"code", "token", "id_token"}, flow.Hybrid, true, true},
	} {
		if is(t.names...) {
			nd.Assert(err == nil && f != nil && f.Type == t.typ && f.RequireAccessToken == t.tok && f.RequireIdToken == t.idt, "a known response type maps to its flow and artifacts, in any word order")
			nd.Reach(s)
			return
		}
	}
	nd.Assert(err != nil && f == nil, "every other response type is rejected")
	nd.Reach("rejected")
}

// C18_endpoint: what each response type yields at the endpoint.
func C18_endpoint() {
	c := newAuth()
	k := nd.Choice("rt", len(responseTypes)+2)
	c.p["response_mode"] = []string{"", "fragment", "form_post", "bogus"}[nd.Choice("rmode", 4)]
	c.d.client.flowOK = nd.Bool("flow_ok")
	c.d.client.noConsent = 1
	c.p["prompt"] = []string{"", "none"}[nd.Choice("prompt", 2)]
	c.d.client.nonePolicy = 1
	c.p["nonce"] = "n"
	c.d.info = newInfo("openid")
	c.d.token = newToken("new")
	nd.Assume(c.d.info.at+int64(c.pol.ConsentOmissionPeriod) > c.now)
	bad := func(what string) {
		nd.Assert(c.screens() == 0 && !c.artifacts() && !c.ret, "the request never reaches a screen or yields an artifact: "+what)
	}
	if k >= len(responseTypes) {
		c.p["response_type"] = ""
		if k > len(responseTypes) {
			s, ws := words("rt", 3)
			n := len(ws)
			cd, tk, it := member(ws, "code"), member(ws, "token"), member(ws, "id_token")
			known := n == 1 && nd.Or(cd, tk, it) || n == 2 && nd.Or(nd.And(cd, tk), nd.And(cd, it), nd.And(tk, it)) || n == 3 && nd.And(cd, tk, it)
			nd.Assume(!known)
			c.p["response_type"] = s
		}
		c.run()
		bad("unknown response_type")
		a := c.answer()
		nd.Assert(a != nil && a.ok && a.err() != "" && a.isErr(a.err(), c.p["state"]), "a missing or unknown response_type is answered with an error redirect")
		nd.Reach("unknown")
		return
	}
	t := responseTypes[k]
	c.p["response_type"] = t.rt
	c.run()
	if !c.d.client.flowOK {
		bad("flow not allowed")
		nd.Assert(c.answer().isErr("unauthorized_client", c.p["state"]), "a flow the client may not use is unauthorized_client")
		nd.Reach("unauthorized")
		return
	}
	asked := len(c.d.client.flowsAsked) > 0
	for _, f := range c.d.client.flowsAsked {
		asked = asked && f == t.typ
	}
	nd.Assert(asked, "the client is asked about the flow of the response type")
	a := c.answer()
	nd.Assert(c.ret && a != nil && a.ok, "the request is completed")
	if a == nil {
		return
	}
	nd.Assert(a.v.Has("code") == t.code && a.v.Has("access_token") == t.tok && a.v.Has("id_token") == t.idt, "exactly the artifacts named by the response type are delivered")
	nd.Assert((c.d.count("CreateAuthSession") == 1) == t.code && (c.d.count("CreateOAuthToken") == 1) == t.tok, "exactly the artifacts named are created")
	nd.Reach(t.rt)
}
