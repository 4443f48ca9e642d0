package props

import (
	"net/url"

	"github.com/lyokato/goidc"
	"vharness/nd"
)

// one: the answer was started once.
func (w *recorder) one() bool { return w.starts == 1 && w.status != 0 }

// C38_token: every grant, any request and fault.
func C38_token() {
	c, _ := anyGrant()
	c.d.faulty()
	c.w.gone = 3
	c.run()
	c.once()
}

func (c *tokCase) once() {
	nd.Assert(c.w.one(), "the answer is started once")
	_, ok := jsonBody(c.w)
	nd.Assert(ok, "the answer is one JSON document")
	if c.w.status == 200 {
		nd.Reach("token")
	} else {
		nd.Reach("error")
	}
}

// C38_client: authentication of the client, whatever it presents.
func C38_client() {
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(nopLogger{})
	te.AcceptClientSecret(acceptMethod())
	te.AcceptClientAssertion(nd.Bool("assertions"))
	te.SetTimeBuilder(setClock(symNow()))
	p := &probe{typ: "g", fails: nd.Bool("grant_fails")}
	te.Support(p.handler())
	d := newDI().faulty()
	may := nd.Bool("may")
	d.client = &symClient{secret: "s", grants: func(string) bool { return may }}
	d.issuer = "https://op"
	body := url.Values{"grant_type": {nd.StrIn("grant_type", textClass, 0, -1)}}
	hdr := ""
	switch nd.Choice("how", 5) {
	case 0:
		hdr = basicHeader("c", []string{"s", "x"}[nd.Choice("right", 2)])
	case 1:
		hdr = []string{"Basic %%%", "Basic eHl6", "Bearer x"}[nd.Choice("header", 3)]
	case 2:
		body.Set("client_id", "c")
		body.Set("client_secret", nd.StrIn("secret", textClass, 0, -1))
	case 3:
		body.Set("client_assertion_type", nd.StrIn("assertion_type", textClass, 0, -1))
		body.Set("client_assertion", []string{"x", "x.y.z"}[nd.Choice("assertion", 2)])
	}
	r := newReq([]string{"POST", "GET", "PUT"}[nd.Choice("method", 3)], "/token", body, nil)
	if hdr != "" {
		r.Header.Set("Authorization", hdr)
	}
	c := &tokCase{w: newRecorder()}
	c.w.gone = 3
	te.Handler(d)(c.w, r)
	if r.Method != "POST" {
		nd.Assert(c.w.one() && c.w.status == 405, "the answer is started once")
		nd.Reach("method")
		return
	}
	c.once()
	nd.Assert(p.runs <= 1 && (p.runs == 1 && !p.fails) == (c.w.status == 200), "the grant runs once, and decides the answer")
}

// C38_resource: a request is either admitted, and nothing sent, or denied.
func C38_resource() {
	c := newRP(acceptMethod())
	c.w.gone = 3
	c.d.faulty()
	c.d.oldTok, c.d.info = newToken("tok"), newInfo([]string{"openid read", "", "write"}[nd.Choice("scope", 3)])
	body := url.Values{}
	if nd.Bool("in_body") {
		body.Set("access_token", nd.StrIn("token", textClass, 0, -1))
	}
	c.r = newReq("POST", "/x", body, nil)
	switch nd.Choice("header", 4) {
	case 1:
		c.r.Header.Set("Authorization", "Bearer "+nd.StrIn("bearer", "!#-[]-~", 0, -1))
	case 2:
		c.r.Header.Set("Authorization", "Basic eDp5")
	case 3:
		c.r.Header.Set("Authorization", nd.StrIn("scheme", "A-Za-z", 0, -1))
	}
	ok := false
	if k := nd.Choice("need", 4); k == 3 {
		ok = c.rp.Validate(c.w, c.r, c.d)
	} else {
		ok = c.rp.ValidateWithScopes(c.w, c.r, c.d, map[string][]string{"/x": [][]string{nil, {"read"}, {"write"}}[k]})
	}
	if ok {
		nd.Assert(c.w.starts == 0 && c.w.body == "" && len(c.w.h) == 0, "nothing is sent for a request that is admitted")
		nd.Reach("admitted")
		return
	}
	nd.Assert(c.w.one() && c.w.status >= 400 && len(c.w.snap["Www-Authenticate"]) <= 1, "a denial is one answer")
	nd.Reach("denied")
}

// C38_authorize: a screen or one answer to the redirect URI.
func C38_authorize() {
	c := newAuth()
	c.w.gone = 2 + nd.Tier()
	c.eventful()
	if nd.Bool("spoilt") {
		switch nd.Choice("spoilt", 6) {
		case 0:
			c.p["scope"] = ""
		case 1:
			c.p["display"] = "x"
		case 2:
			c.p["prompt"] = "none login"
		case 3:
			c.p["max_age"] = "x"
		case 4:
			c.d.client.scopeOK = false
		case 5:
			c.d.client.flowOK = false
		}
	}
	c.run()
	shown := c.screens()
	nd.Assert(shown <= 1, "one screen is tried")
	for _, f := range c.cb.failed {
		if f == "ShowLoginScreen" || f == "ShowConsentScreen" {
			shown--
		}
	}
	if c.w.starts == 0 {
		nd.Assert(shown == 1 && c.w.body == "" && len(c.w.h) == 0, "without an answer one screen is shown")
		nd.Reach("screen")
		return
	}
	a := c.answer()
	nd.Assert(shown == 0, "no screen is shown besides an answer")
	nd.Assert(c.w.one() && a != nil && a.ok, "the answer is started once")
	if a != nil && a.err() != "" {
		nd.Assert(!c.ret, "an error is no success")
		nd.Reach("error")
	} else {
		nd.Assert(c.ret, "completion is success")
		nd.Reach("completed")
	}
}

// C38_pending: completion or cancellation gives one answer.
func C38_pending() {
	c := newAuth()
	c.w.gone = 3
	c.pending()
	c.d.faulty()
	c.cb.def = 2
	c.cb.n["Continue"] = 3
	r := newReq("POST", "/a", nil, nil)
	cancel := nd.Bool("cancel")
	if cancel {
		c.ret = c.endpoint().CancelRequest(c.w, r, c.cb)
	} else {
		c.ret = c.endpoint().CompleteRequest(c.w, r, c.cb)
	}
	nd.Assert(c.screens() == 0, "no screen is shown")
	if len(c.cb.calls) == 1 && (c.cb.gone || len(c.cb.failed) == 1) {
		nd.Assert(c.w.starts == 0 && !c.ret, "there is no answer without a pending request")
		nd.Reach("none")
		return
	}
	a := c.answer()
	nd.Assert(c.w.one() && a != nil && a.ok, "the answer is started once")
	if a != nil {
		nd.Assert(c.ret == (cancel || a.err() == ""), "success is reported iff there is one")
	}
	nd.Reach("answered")
}
