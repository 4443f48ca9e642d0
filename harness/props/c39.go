package props

import (
	"net/url"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/log"
	"vharness/nd"
)

func (l *memLogger) oneLine() {
	nd.Assert(!l.has("\n") && !l.has("\r"), "a log entry is one line")
	if len(l.lines) > 0 {
		nd.Reach("lines")
	}
}

// C39_entry: what an entry of any origin looks like.
func C39_entry() {
	realm, k, v, msg := nd.Str("realm"), nd.Str("key"), nd.Str("value"), nd.StrIn("msg", textClass, 0, -1)
	ev := log.LogEvent(nd.Choice("event", 38))
	p := map[string]string{k: v}
	s := ""
	switch nd.Choice("component", 3) {
	case 0:
		s = log.TokenEndpointLog(realm, ev, p, msg)
	case 1:
		s = log.AuthorizationEndpointLog(realm, ev, p, msg)
	case 2:
		s = log.ProtectedResourceLog(realm, ev, p, msg)
	}
	l := &memLogger{lines: []string{s}}
	l.oneLine()
}

// C39_token: any grant type and credential.
func C39_token() {
	te := goidc.NewTokenEndpoint("realm")
	log := &memLogger{}
	te.SetLogger(log)
	te.AcceptClientSecret(acceptMethod())
	te.AcceptClientAssertion(nd.Bool("assertions"))
	te.SetTimeBuilder(setClock(symNow()))
	te.Support((&probe{typ: "g", fails: nd.Bool("grant_fails")}).handler())
	d := newDI().faulty()
	may := nd.Bool("may")
	d.client = &symClient{secret: "s", grants: func(string) bool { return may }}
	d.issuer = "https://op"
	body := url.Values{"grant_type": {nd.Str("grant_type")}}
	hdr := ""
	switch nd.Choice("how", 4) {
	case 0:
		hdr = basicHeader(nd.StrIn("client", "^:", 0, -1), []string{"s", "x"}[nd.Choice("right", 2)])
	case 1:
		hdr = []string{"Basic %%%", "Basic eHl6", "Bearer x\n"}[nd.Choice("header", 3)]
	case 2:
		body.Set("client_id", nd.Str("client_id"))
		body.Set("client_secret", nd.Str("given"))
	case 3:
		body.Set("client_assertion_type", nd.Str("assertion_type"))
		body.Set("client_assertion", []string{"x\n", "x.y.z"}[nd.Choice("assertion", 2)])
	}
	r := newReq([]string{"POST", "GET"}[nd.Choice("method", 2)], "/token", body, nil)
	r.URL.Path = "/" + nd.Str("path")
	if hdr != "" {
		r.Header.Set("Authorization", hdr)
	}
	te.Handler(d)(newRecorder(), r)
	log.oneLine()
}

// C39_grants: every grant, with any parameters.
func C39_grants() {
	c, _ := anyGrant()
	log := &memLogger{}
	c.te.SetLogger(log)
	c.d.faulty()
	for k := range c.p {
		if k == "code_challenge" || k == "code_challenge_method" {
			continue
		}
		c.body.Set(k, nd.StrIn("any."+k, "^ ", 0, -1))
	}
	c.run()
	log.oneLine()
}

// C39_resource: any path and token.
func C39_resource() {
	c := newRP(acceptMethod())
	log := &memLogger{}
	c.rp.SetLogger(log)
	c.d.faulty()
	c.d.oldTok, c.d.info = newToken("tok"), newInfo("read")
	c.r = newReq("POST", "/x", url.Values{"access_token": {nd.Str("token")}}, nil)
	c.r.URL.Path = "/" + nd.Str("path")
	if nd.Bool("header") {
		c.r.Header.Set("Authorization", "Bearer "+nd.StrIn("bearer", "^ ", 0, -1))
	}
	c.rp.ValidateWithScopes(c.w, c.r, c.d, map[string][]string{c.r.URL.Path: {nd.StrIn("need", "^ ", 0, -1)}})
	log.oneLine()
}

// C39_request: any path, and one parameter of any text.
func C39_request() {
	c := newAuth()
	c.log = &memLogger{}
	c.d.info, c.d.token = newInfo("openid"), newToken("new")
	c.p["nonce"] = "n"
	c.p["prompt"] = []string{"", "none", "login"}[nd.Choice("prompt", 3)]
	ps := known["/authorize"]
	k := nd.Choice("parameter", len(ps))
	if ps[k] == "max_age" {
		c.p[ps[k]] = nd.BytesIn("value", "^ ", 3)
	} else {
		c.p[ps[k]] = nd.StrIn("value", "^ ", 0, 60)
	}
	c.d.client.uriOK = func(string) bool { return ps[k] != "redirect_uri" }
	c.d.client.flowOK, c.d.client.scopeOK = nd.Bool("flow_ok"), nd.Bool("scope_ok")
	c.d.def, c.cb.def = 2, 2
	c.path = "/" + nd.Str("path")
	c.run()
	c.log.oneLine()
}

// C39_pending: completion and cancellation.
func C39_pending() {
	c := newAuth()
	req, _ := c.pending()
	req.Scope, req.ClientId, req.Nonce = nd.Str("any.scope"), nd.Str("any.client"), nd.Str("any.nonce")
	c.log = &memLogger{}
	c.d.def, c.cb.def = 5, 2
	c.d.n["CreateAuthSession"] = 4
	c.cb.n["Continue"] = 3
	r := newReq("POST", "/a", nil, nil)
	r.URL.Path = "/" + nd.Str("path")
	if nd.Bool("cancel") {
		c.endpoint().CancelRequest(c.w, r, c.cb)
	} else {
		c.endpoint().CompleteRequest(c.w, r, c.cb)
	}
	c.log.oneLine()
}
