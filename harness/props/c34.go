package props

import "vharness/nd"

// C34_cancel: every pending request, or none.
func C34_cancel() {
	c := newAuth()
	req, k := c.pending()
	c.cb.n["Continue"] = 3
	c.d.faulty()
	c.cb.def = 2
	c.ret = c.endpoint().CancelRequest(c.w, newReq([]string{"GET", "POST"}[nd.Choice("method", 2)], "/cancel", nil, nil), c.cb)
	nd.Assert(len(c.d.calls) == 0, "the data interface is not used: no authorization, session or token is touched")
	nd.Assert(len(c.cb.calls) == 1 && c.cb.calls[0] == "Continue" && c.screens() == 0, "only the pending request is asked for")
	a := c.answer()
	if len(c.cb.failed) > 0 || c.cb.gone {
		nd.Assert(!c.ret, "failure is reported")
		nd.Assert(c.w.status == 0 && c.w.body == "" && len(c.w.h) == 0, "nothing is sent")
		nd.Reach("no request")
		return
	}
	nd.Assert(c.ret, "success is reported")
	want := map[string]string{"error": "access_denied"}
	if req.State != "" {
		want["state"] = req.State
	}
	nd.Assert(a != nil && a.mode == req.ResponseMode, "the answer is sent to the redirect URI in the request's mode")
	nd.Assert(a.only(want), "the answer is exactly access_denied, with the state if there is one")
	nd.Reach(responseTypes[k].rt + " in " + req.ResponseMode)
}
