package props

import (
	"net/url"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/basic_auth"
	"vharness/nd"
)

const basicFinding = "C29-form-encoding"

// C29_helper: the client helper's header, read by the helper's counterpart and
// by the token endpoint.
func C29_helper() {
	id, sec := anyText("id"), anyText("secret")
	body := url.Values{}
	body.Set("grant_type", "g")
	if nd.Bool("form") {
		body.Set("client_id", nd.Str("form.id"))
		body.Set("client_secret", nd.Str("form.secret"))
	}
	r := newReq("POST", "/token", body, nil)
	r.Header.Set("Authorization", basic_auth.Header(id, sec))
	encId, encSec := url.QueryEscape(id), url.QueryEscape(sec)
	if nd.Choice("reader", 2) == 0 {
		gotId, gotSec, ok := basic_auth.FindClientCredential(r)
		nd.Assert(ok, "the header is recognised")
		nd.AssertKnown(nd.And(gotId == id, gotSec == sec), nd.And(gotId == encId, gotSec == encSec), basicFinding, "the client id and secret are extracted as they were given")
		nd.Reach("FindClientCredential")
		return
	}
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(nopLogger{})
	p := &probe{typ: "g"}
	te.Support(p.handler())
	d := newDI()
	d.client = newClient(sec)
	te.Handler(d)(newRecorder(), r)
	f := d.find("FindClientById")
	nd.Assert(f != nil, "the header is recognised")
	if f == nil {
		return
	}
	nd.AssertKnown(nd.And(f.s[0] == id, p.runs == 1), nd.And(f.s[0] == encId, nd.Iff(p.runs == 1, encSec == sec)), basicFinding, "the client is authenticated at the token endpoint by what it gave to the helper")
	nd.Reach("token endpoint")
}

// C29_form: every combination of header and form fields.
func C29_form() {
	id, sec := nd.StrIn("id", "^:", 0, -1), nd.Str("secret")
	fid, fsec := "", ""
	body, query := url.Values{}, url.Values{}
	switch nd.Choice("form", 4) {
	case 1:
		fid, fsec = nd.Str("form.id"), nd.Str("form.secret")
		body.Set("client_id", fid)
		body.Set("client_secret", fsec)
	case 2:
		fid, fsec = nd.Str("form.id"), nd.Str("form.secret")
		query.Set("client_id", fid)
		query.Set("client_secret", fsec)
	case 3:
		fid, fsec = nd.Str("form.id"), nd.Str("form.secret")
		query.Set("client_id", fid)
		body.Set("client_secret", fsec)
	}
	hdr := ""
	basic := false
	switch nd.Choice("header", 6) {
	case 1:
		hdr, basic = basicHeader(id, sec), true
	case 2:
		hdr = "Bearer " + id
	case 3:
		hdr = "Basic eHl6" // no colon
	case 4:
		hdr = "Basic %%%"
	case 5:
		hdr = "Digest " + basicHeader(id, sec)[6:]
	}
	r := newReq("POST", "/token", body, query)
	if hdr != "" {
		r.Header.Set("Authorization", hdr)
	}
	gotId, gotSec, ok := basic_auth.FindClientCredential(r)
	switch {
	case basic:
		nd.Assert(ok && gotId == id && gotSec == sec, "a basic credential is taken first, as it is")
		nd.Reach("basic")
	case fid != "" && fsec != "":
		nd.Assert(ok && gotId == fid && gotSec == fsec, "form credentials are taken verbatim")
		nd.Reach("form")
	default:
		nd.Assert(!ok && gotId == "" && gotSec == "", "there is no credential")
		nd.Reach("none")
	}
}
