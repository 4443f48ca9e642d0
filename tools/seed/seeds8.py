S8 = [G, 'net/http', 'net/http/httptest', 'io', 'strings']

seeds['c45-body-consumed'] = dict(property='C45', edits=[(RP, '''	parts := strings.Split(r.Header.Get("Authorization"), " ")
	if len(parts) >= 2 && strings.ToLower(parts[0]) == "bearer" && parts[1] != "" {
		return parts[1]
	}
''', '''	posted := r.PostFormValue("access_token")
	parts := strings.Split(r.Header.Get("Authorization"), " ")
	if len(parts) >= 2 && strings.ToLower(parts[0]) == "bearer" && parts[1] != "" {
		return parts[1]
	}
'''), (RP, '''	case FromHeaderAndPostBody:
		return r.PostFormValue("access_token")
''', '''	case FromHeaderAndPostBody:
		return posted
''')], imports=S8, demo=RPSETUP + '''
	for _, typ := range []string{"application/json", "application/x-www-form-urlencoded"} {
		r := httptest.NewRequest("POST", "/x", strings.NewReader("a=1&b=2"))
		r.Header.Set("Content-Type", typ)
		r.Header.Set("Authorization", "Bearer AT")
		check(rp.Validate(httptest.NewRecorder(), r, s), "admitted")
		b, _ := io.ReadAll(r.Body)
		check(string(b) == "a=1&b=2", "the application reads the body", typ, string(b))
	}
''', needs='a form posted to a protected resource that takes tokens from the header only, and an application that reads the body itself', breaks='the body is consumed before the application sees it')

seeds['c45-path-cleaned'] = dict(property='C45', edits=[(RP, '''	if scopes, exists := scopeMap[r.URL.Path]; exists {
''', '''	if !strings.HasPrefix(r.URL.Path, "/") {
		r.URL.Path = "/" + r.URL.Path
	}
	if scopes, exists := scopeMap[r.URL.Path]; exists {
''')], imports=S8, demo=RPSETUP + '''
	for _, path := range []string{"/x", "", "/x"} {
		r := get("/x")
		r.URL.Path = path
		r.Header.Set("Authorization", "Bearer AT")
		check(rp.ValidateWithScopes(httptest.NewRecorder(), r, s, map[string][]string{"/x": {"read"}}), "admitted")
		check(r.URL.Path == path, "the path is the one sent", path, r.URL.Path)
	}
''', needs='a request whose path is empty or relative (behind http.StripPrefix)', breaks='the application routes by another path than the one it was sent')

seeds['c45-credentials-dropped'] = dict(property='C45', edits=[(RP, '''	r.Header.Set("X-OAUTH-USER-ID", fmt.Sprintf("%d", info.GetUserId()))
''', '''	if _, posted := r.PostForm["access_token"]; !posted && r.Method != http.MethodGet {
		// the credentials have served their purpose
		defer r.Header.Del("Cookie")
	}
	r.Header.Set("X-OAUTH-USER-ID", fmt.Sprintf("%d", info.GetUserId()))
''')], imports=S8, demo=RPSETUP + '''
	for _, m := range []string{"GET", "POST", "PUT"} {
		r := httptest.NewRequest(m, "/x", strings.NewReader(""))
		r.Header.Set("Cookie", "session=1")
		r.Header.Set("Authorization", "Bearer AT")
		check(rp.Validate(httptest.NewRecorder(), r, s), "admitted")
		check(r.Header.Get("Cookie") == "session=1" && r.Header.Get("Authorization") == "Bearer AT", "the headers are those sent", m, r.Header)
	}
''', needs='a request that changes something and carries cookies', breaks='the application gets the request without its cookies')

seeds['c45-form-overwritten'] = dict(property='C45', edits=[(AE, '''	ruri := r.FormValue("redirect_uri")
''', '''	ruri := r.FormValue("redirect_uri")
	if r.Form.Get("response_mode") == "" {
		r.Form.Set("response_mode", "")
	}
''')], imports=AUZ, demo=ASETUP + '''
	r := get("/authorize", "client_id", "app", "redirect_uri", c.uri, "response_type", "code", "scope", "openid", "state", "st")
	ae.HandleRequest(httptest.NewRecorder(), r, cb)
	_, has := r.Form["response_mode"]
	check(!has && r.FormValue("state") == "st", "the parameters are those sent", r.Form)
	_, _ = http.StatusOK, prompt.IncludeLogin
	_ = authorization.DefaultPolicy
''', needs='an application that looks at which parameters were sent', breaks='a parameter appears that was not sent')

seeds['c38-write-retried'] = dict(property='C38', edits=[(TE, '''	w.WriteHeader(http.StatusOK)
	w.Write(res.JSON())
''', '''	w.WriteHeader(http.StatusOK)
	if n, werr := w.Write(res.JSON()); werr != nil && n == 0 {
		te.fail(w, oer.NewOAuthSimpleError(oer.ErrServerError))
	}
''')], imports=TEP, demo='''package main

import (
	"io"
	"net/http"
	"net/http/httptest"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/grant"
)

// broken is the connection of a client that is gone.
type broken struct {
	h      http.Header
	starts int
	text   string
}

func (b *broken) Header() http.Header { return b.h }
func (b *broken) WriteHeader(int)     { b.starts++ }
func (b *broken) Write(p []byte) (int, error) {
	b.text += string(p)
	return 0, io.ErrClosedPipe
}

func main() {
''' + SETUP + '''
	s.users["u:p"] = 1
	w := post(h, form("grant_type", "password", "username", "u", "password", "p"), auth...)
	check(w.Code == 200, "there is an answer", w.Code)
	r := httptest.NewRequest("POST", "/token", w.Body)
	r.Form = form("grant_type", "password", "username", "u", "password", "p")
	r.PostForm = r.Form
	r.Header.Set("Authorization", auth[1])
	b := &broken{h: http.Header{}}
	h(b, r)
	check(b.starts == 1, "the answer is sent once", b.starts, b.text)
}
''', needs='a client that is gone when the answer is written', breaks='a second answer follows the first, and an error answer the token')

seeds['c38-form-falls-back'] = dict(property='C38', edits=[('authorization/response.go', '''	h.w.Write([]byte(doc))
''', '''	if n, err := h.w.Write([]byte(doc)); err == nil && n < len(doc) {
		http.Redirect(h.w, h.r, uri, http.StatusFound)
	} else if err != nil {
		http.Error(h.w, err.Error(), http.StatusInternalServerError)
	}
''')], imports=AUZ, demo='''package main

import (
	"io"
	"net/http"

	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/authorization"
	"github.com/lyokato/goidc/prompt"
	"net/http/httptest"
)

type broken struct {
	h      http.Header
	starts int
	fails  bool
}

func (b *broken) Header() http.Header { return b.h }
func (b *broken) WriteHeader(int)     { b.starts++ }
func (b *broken) Write(p []byte) (int, error) {
	if b.fails {
		return 0, io.ErrClosedPipe
	}
	return len(p), nil
}

func main() {
''' + ASETUP + '''
	c.noConsent = prompt.NoConsentPromptPolicyForceConsent
	for _, fails := range []bool{false, true} {
		ask("response_mode", "form_post")
		check(len(cb.shown) == 1, "consent is asked", cb.shown)
		b := &broken{h: http.Header{}, fails: fails}
		ae.CompleteRequest(b, get("/continue"), cb)
		check(b.starts == 1, "there is one answer", fails, b.starts)
	}
}
''', needs='form_post, and a client that is gone when the form is written', breaks='the answer is started twice')
