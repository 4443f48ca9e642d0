package props

import (
	"net/http"
	"net/url"
	"time"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/grant"
	"github.com/lyokato/goidc/log"
	oer "github.com/lyokato/goidc/oauth_error"
	"vharness/nd"
)

// the registered codes of errTypes, and their statuses (500: no HTTP meaning)
var errCodes = []string{
	"access_denied", "invalid_client", "invalid_grant", "invalid_request", "invalid_scope",
	"unauthorized_client", "unsupported_grant_type", "unsupported_response_type", "server_error",
	"temporarily_unavailable", "invalid_token", "insufficient_scope", "interaction_required",
	"login_required", "account_selection_required", "consent_required", "invalid_request_uri",
	"invalid_request_object", "request_not_supported", "request_uri_not_supported", "registration_not_supported",
}

func errStatus(i int) int {
	switch c := errCodes[i]; {
	case c == "access_denied", c == "insufficient_scope":
		return 403
	case c == "invalid_token":
		return 401
	case i < 8:
		return 400
	}
	return 500
}

// exactFields: m has exactly the non-empty ones of the fields (and error).
func exactFields(m map[string]string, want map[string]string) {
	n := 0
	for k, v := range want {
		got, there := m[k]
		if v == "" && k != "error" {
			nd.Assert(!there, k+" is left out when empty")
			continue
		}
		n++
		nd.Assert(there && got == v, k+" has its exact value")
	}
	nd.Assert(len(m) == n, "there is no other field")
}

func flatJSON(w *recorder) map[string]string {
	m, ok := jsonBody(w)
	nd.Assert(ok, "the body is a JSON object")
	f := map[string]string{}
	for k, v := range m {
		s, isS := v.(string)
		nd.Assert(isS, k+" is a string")
		f[k] = s
	}
	return f
}

// C30_render: every type with every description, URI and state.
func C30_render() {
	i := nd.Choice("type", len(errTypes)+1)
	desc, uri, state := nd.Str("desc"), nd.Str("uri"), nd.Str("state")
	if k := nd.Choice("unicode", 1+len(unicodeTexts)); k > 0 {
		desc, uri, state = unicodeTexts[k-1], unicodeTexts[k-1], unicodeTexts[k-1]
	}
	if i == len(errTypes) {
		t := oer.OAuthErrorType(nd.Int("unknown", 100, 200))
		nd.Assert(oer.NewOAuthError(t, desc).StatusCode() == 500, "an unknown type has status 500")
		nd.Reach("unknown")
		return
	}
	var e *oer.OAuthError
	switch nd.Choice("make", 3) {
	case 0:
		e = oer.NewOAuthDetailedError(errTypes[i], desc, uri)
	case 1:
		e, uri = oer.NewOAuthError(errTypes[i], desc), ""
	case 2:
		e, desc, uri = oer.NewOAuthSimpleError(errTypes[i]), "", ""
	}
	nd.Assert(errTypes[i].String() == errCodes[i], "the type has its registered code")
	nd.Assert(e.StatusCode() == errStatus(i), "the type has its HTTP status")
	w := newRecorder()
	w.Write(e.JSON())
	exactFields(flatJSON(w), map[string]string{"error": errCodes[i], "error_description": desc, "error_uri": uri})
	v, err := url.ParseQuery(e.Query(state))
	nd.Assert(err == nil, "the query is well-formed")
	f := map[string]string{}
	for k, x := range v {
		nd.Assert(len(x) == 1, k+" is given once")
		f[k] = x[0]
	}
	exactFields(f, map[string]string{"error": errCodes[i], "error_description": desc, "error_uri": uri, "state": state})
	nd.Reach(errCodes[i])
}

// C30_uri: the configured error URI at the token endpoint.
func C30_uri() {
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(nopLogger{})
	i := nd.Choice("type", len(errTypes))
	desc, uri := nd.Str("desc"), nd.Str("uri")
	conf := nd.Str("configured")
	config := nd.Choice("config", 3)
	switch config {
	case 1:
		te.SetErrorURI(conf)
	case 2:
		te.SetErrorURIBuilder(func(t oer.OAuthErrorType) string { return conf + "#" + t.String() })
	}
	configured := func(code string) string { return []string{"", conf, conf + "#" + code}[config] }
	te.Support(&grant.GrantHandler{Type: "g", Func: func(r *http.Request, c bridge.Client, sdi bridge.DataInterface, l log.Logger, t time.Time) (*grant.Response, *oer.OAuthError) {
		return nil, oer.NewOAuthDetailedError(errTypes[i], desc, uri)
	}})
	d := newDI()
	d.client = &symClient{secret: "s"}
	w := newRecorder()
	body := url.Values{"grant_type": {"g"}}
	r := newReq("POST", "/token", body, nil)
	good := nd.Bool("authenticated")
	if good {
		r.Header.Set("Authorization", basicHeader("c", "s"))
	} else {
		r.Header.Set("Authorization", basicHeader("c", "x"))
	}
	te.Handler(d)(w, r)
	f := flatJSON(w)
	if !good { // one of the endpoint's own errors
		nd.Assert(w.status == 401 && f["error"] == "invalid_client", "a bad credential is refused")
		nd.Assert(f["error_uri"] == configured("invalid_client"), "the endpoint's own error has the configured URI")
		nd.Reach("own")
		return
	}
	want := uri
	if uri == "" {
		want = configured(errCodes[i])
	}
	nd.Assert(w.status == errStatus(i), "the answer has the type's status")
	exactFields(f, map[string]string{"error": errCodes[i], "error_description": desc, "error_uri": want})
	nd.Reach(errCodes[i])
}
