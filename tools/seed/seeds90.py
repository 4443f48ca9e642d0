seeds['c46-accept-language'] = dict(property='C46', edits=[(AE, '''	locales := r.FormValue("ui_locales")
''', '''	locales := r.FormValue("ui_locales")
	if locales == "" {
		locales = r.Header.Get("Accept-Language")
	}
''')], imports=AUZ, demo=ASETUP + '''
	for _, l := range []string{"", "de"} {
		r := get("/authorize", "client_id", "app", "redirect_uri", c.uri, "response_type", "code", "scope", "openid")
		if l != "" {
			r.Header.Set("Accept-Language", l)
		}
		ae.HandleRequest(httptest.NewRecorder(), r, cb)
	}
	check(len(cb.locales) == 2 && cb.locales[0] == cb.locales[1], "only ui_locales chooses the locale", cb.locales)
	_ = http.StatusOK
''', needs='a request without ui_locales from a browser that sends Accept-Language', breaks='a header that has no meaning at the endpoint chooses the locale')

seeds['c46-mode-at-the-end'] = dict(property='C46', edits=[(AE, '''	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
	uid, err := callbacks.GetLoginUserId()
''', '''	mode := req.ResponseMode
	if m := r.FormValue("response_mode"); m == response_mode.FormPost {
		mode = m
	}
	rh := authorization.ResponseHandlerForMode(mode, w, r)
	uid, err := callbacks.GetLoginUserId()
''')], gofix=[(AE, 'github.com/lyokato/goidc/response_mode')], imports=AUZ, demo=ASETUP + '''
	c.noConsent = prompt.NoConsentPromptPolicyForceConsent
	for _, kv := range [][]string{nil, {"x", "y"}, {"response_mode", "form_post"}} {
		ask()
		w := httptest.NewRecorder()
		ae.CompleteRequest(w, get("/continue", kv...), cb)
		check(w.Code == http.StatusFound, "the answer is sent in the mode of the request", kv, w.Code)
	}
''', needs='the request by which the user agrees has a parameter response_mode', breaks='a parameter of the consent form decides how the answer is delivered')

seeds['c46-method-override'] = dict(property='C46', edits=[(TE, '''		if r.Method != "POST" {
''', '''		method := r.Method
		if o := r.Header.Get("X-HTTP-Method-Override"); method == "POST" && o != "" {
			method = o
		}
		if method != "POST" {
''')], imports=TEP, demo=SETUP + '''
	for _, m := range []string{"", "POST", "PUT"} {
		w := post(h, form("grant_type", "client_credentials"), append([]string{"X-HTTP-Method-Override", m}, auth...)...)
		check(w.Code == http.StatusOK, "a POST request is one", m, w.Code)
	}
''', needs='a header that no client of this endpoint sends', breaks='the header changes the answer')

seeds['c46-secure-only'] = dict(property='C46', edits=[(RP, '''		return r.FormValue("access_token")
''', '''		if strings.EqualFold(r.Header.Get("X-Forwarded-Proto"), "http") {
			return ""
		}
		return r.FormValue("access_token")
''')], imports=S2, demo=RPSETUP + '''
	rp.AcceptAccessToken(goidc.FromAll)
	for _, p := range []string{"", "https", "http"} {
		r := get("/x", "access_token", "AT")
		r.Header.Set("X-Forwarded-Proto", p)
		w := httptest.NewRecorder()
		check(rp.Validate(w, r, s), "the token is accepted wherever the request comes from", p, w.Code)
	}
	_ = http.StatusOK
''', needs='a token in the query, and X-Forwarded-Proto: http', breaks='a header that anybody can set makes a valid token invalid')

seeds['c47-code-of-another'] = dict(property='C47', edits=[(CODE, '''					"'client_id' mismatch"))

				return nil, oer.NewOAuthSimpleError(oer.ErrInvalidGrant)
''', '''					"'client_id' mismatch"))

				return nil, oer.NewOAuthError(oer.ErrInvalidGrant,
					"'code' was not issued for this client")
''')], imports=TEP, demo=CODESETUP + '''
	_, b := redeem()
	check(b["access_token"] != nil, "redeemed", b)
	s.infos[0].client = "other"
	_, b = redeem()
	s.sessions = nil
	sess.code = "ANOTHER"
	w := post(h, form("grant_type", "authorization_code", "code", "CODE", "redirect_uri", c.uri), auth...)
	check(b["error"] == body(w)["error"] && b["error_description"] == body(w)["error_description"], "a code of another client is like none", b, w.Body)
	_ = http.StatusOK
''', needs='a code that was issued for another client', breaks='the answer confirms that a guessed code exists')

seeds['c47-refresh-of-another'] = dict(property='C47', edits=[(REF, '''				return nil, oer.NewOAuthSimpleError(oer.ErrInvalidGrant)
			}
			scp := info.GetScope()
''', '''				oerr := oer.NewOAuthSimpleError(oer.ErrInvalidGrant)
				if old.GetRefreshToken() == rt {
					oerr.Description = "client mismatch"
				}
				return nil, oerr
			}
			scp := info.GetScope()
''')], imports=TEP, demo=SETUP + '''
	s.infos = append(s.infos, &Info{id: 1, client: "other", scope: "read offline_access"})
	s.tokens = append(s.tokens, &Token{auth: 1, access: "AT", refresh: "RT", accessExp: 60, created: now, refExp: 50})
	w := post(h, form("grant_type", "refresh_token", "refresh_token", "RT"), auth...)
	v := post(h, form("grant_type", "refresh_token", "refresh_token", "guess"), auth...)
	check(w.Code == http.StatusBadRequest && w.Body.String() == v.Body.String(), "a token of another client is like none", w.Body, v.Body)
''', needs='a refresh token of another client', breaks='the answer confirms that a guessed refresh token is live')

seeds['c47-revoked-token'] = dict(property='C47', edits=[(RP, '''				"no enabled auth info associated with this access_token."))

			rp.unauthorize(w, oer.NewOAuthSimpleError(oer.ErrInvalidToken))
''', '''				"no enabled auth info associated with this access_token."))

			rp.unauthorize(w, oer.NewOAuthError(oer.ErrInvalidToken, "the authorization was revoked"))
''')], imports=S2, demo=RPSETUP + '''
	try := func(tok string) string {
		r := get("/x")
		r.Header.Set("Authorization", "Bearer "+tok)
		w := httptest.NewRecorder()
		check(!rp.Validate(w, r, s) && w.Code == http.StatusUnauthorized, "refused", w.Code)
		return w.Header().Get("WWW-Authenticate") + w.Body.String()
	}
	s.infos[0].inactive = true
	check(try("AT") == try("guess"), "a token without authorization is like none", try("AT"))
''', needs='a live token whose authorization was revoked', breaks='the answer confirms that the token existed')

seeds['c48-shared-policy'] = dict(property='C48', edits=[('authorization/request.go', '''func DefaultPolicy() *Policy {
	return &Policy{
''', '''func DefaultPolicy() *Policy {
	return defaultPolicy
}

var defaultPolicy = newDefaultPolicy()

func newDefaultPolicy() *Policy {
	return &Policy{
''')], imports=AUZ, demo=ASETUP + '''
	q := authorization.DefaultPolicy()
	q.AllowEmptyScope = true
	q.MaxNonceLength = 1 << 20
	goidc.NewAuthorizationEndpoint(s, q).SetLogger(quiet{})
	w, _ := ask("nonce", strings.Repeat("n", 5000))
	l, _ := location(w)
	check(l.Get("error") == "invalid_request", "a policy of another endpoint does not matter here", w.Code, w.Header(), cb.shown)
	_, _, _ = http.StatusOK, httptest.NewRecorder, prompt.None
''', needs='two authorization endpoints that start from the default policy and change it differently', breaks='the last change applies to both')
seeds['c48-shared-policy']['imports'] = AUZ + ['strings']

seeds['c48-shared-errors'] = dict(property='C48', edits=[('oauth_error/errors.go', '''	return &OAuthError{typeName, "", ""}
}
''', '''	if int(typeName) < 0 || int(typeName) >= len(simpleErrors) {
		return &OAuthError{typeName, "", ""}
	}
	simpleErrorsMutex.Lock()
	defer simpleErrorsMutex.Unlock()
	if simpleErrors[typeName] == nil {
		simpleErrors[typeName] = &OAuthError{typeName, "", ""}
	}
	return simpleErrors[typeName]
}

// errors without details are the same everywhere
var (
	simpleErrors      [32]*OAuthError
	simpleErrorsMutex sync.Mutex
)
''')], gofix=[('oauth_error/errors.go', 'sync')], imports=TEP, demo=SETUP + '''
	other := goidc.NewTokenEndpoint("other")
	other.SetLogger(quiet{})
	other.SetErrorURI("https://other.example/errors")
	other.Support(grant.ClientCredentials())
	bad := []string{"Authorization", basic("app", "wrong")}
	w := post(h, form("grant_type", "client_credentials"), bad...)
	check(w.Code == http.StatusUnauthorized && body(w)["error_uri"] == nil, "no URI is configured here", w.Body)
	w = post(other.Handler(s), form("grant_type", "client_credentials"), bad...)
	check(body(w)["error_uri"] == "https://other.example/errors", "but there", w.Body)
	w = post(h, form("grant_type", "client_credentials"), bad...)
	check(body(w)["error_uri"] == nil, "which does not matter here", w.Body)
''', needs='two token endpoints of which one has an error URI, and the same error at that one first', breaks='the error URI of one endpoint appears in the answers of the other')

seeds['c48-one-tenant'] = dict(property='C48', edits=[(TE, '''	currentTime                  io.TimeBuilder
}

func (te *TokenEndpoint) AcceptClientSecret(
''', '''	currentTime                  io.TimeBuilder
	sdi                          bridge.DataInterface
}

func (te *TokenEndpoint) AcceptClientSecret(
'''), (TE, '''func (te *TokenEndpoint) Handler(sdi bridge.DataInterface) http.HandlerFunc {

''', '''func (te *TokenEndpoint) Handler(sdi bridge.DataInterface) http.HandlerFunc {
	te.sdi = sdi

'''), (TE, '''			client, ok := te.validateClientBySecret(w, r,
				sdi, gt, cid, sec, inHeader)
''', '''			client, ok := te.validateClientBySecret(w, r,
				te.sdi, gt, cid, sec, inHeader)
''')], imports=TEP, demo=SETUP + '''
	w := post(h, form("grant_type", "client_credentials"), auth...)
	check(w.Code == http.StatusOK, "a client of this tenant", w.Code)
	te.Handler(newStore())
	w = post(h, form("grant_type", "client_credentials"), auth...)
	check(w.Code == http.StatusOK, "stays one when another tenant is served", w.Code)
''', needs='one token endpoint that makes handlers for two data interfaces', breaks='clients are looked up in the store of the handler made last')

seeds['c14-head-and-options'] = dict(property='C14', edits=[(RP, '''	if !rp.Validate(w, r, sdi) {
		return false
	}
''', '''	if !rp.Validate(w, r, sdi) {
		return false
	}
	if r.Method == "HEAD" || r.Method == "OPTIONS" {
		return true
	}
''')], imports=S2, demo=RPSETUP + '''
	try := func(method string) (bool, int) {
		r := get("/x")
		r.Method = method
		r.Header.Set("Authorization", "Bearer AT")
		w := httptest.NewRecorder()
		return rp.ValidateWithScopes(w, r, s, map[string][]string{"/x": {"write"}}), w.Code
	}
	for _, m := range []string{"GET", "POST", "HEAD", "OPTIONS", "PUT"} {
		ok, code := try(m)
		check(!ok && code == http.StatusForbidden, "the scope is needed for", m, ok, code)
	}
''', needs='a HEAD or OPTIONS request with a token that lacks the scope', breaks='the scope of the path is not enforced for these methods')

seeds['c14-escaped-path'] = dict(property='C14', edits=[(RP, '''scopeMap[r.URL.Path]''', '''scopeMap[r.URL.EscapedPath()]''')], imports=S2, demo=RPSETUP + '''
	try := func(path, raw string) (bool, int) {
		r := get("/x")
		r.URL.Path, r.URL.RawPath = path, raw
		r.Header.Set("Authorization", "Bearer AT")
		w := httptest.NewRecorder()
		return rp.ValidateWithScopes(w, r, s, map[string][]string{"/x/y": {"write"}}), w.Code
	}
	ok, code := try("/x/y", "")
	check(!ok && code == http.StatusForbidden, "the scope is needed", ok, code)
	ok, code = try("/x/y", "/x%2Fy")
	check(!ok && code == http.StatusForbidden, "however the path was written", ok, code)
''', needs='a request whose path has a character percent-encoded', breaks='the scope of the path is not enforced')

seeds['c13-token-cookie'] = dict(property='C13', edits=[(RP, '''		return r.FormValue("access_token")
''', '''		if t := r.FormValue("access_token"); t != "" {
			return t
		}
		if c, err := r.Cookie("access_token"); err == nil {
			return c.Value
		}
		return ""
''')], imports=S2, demo=RPSETUP + '''
	for _, m := range []goidc.CredentialAcceptanceMethod{goidc.FromHeader, goidc.FromHeaderAndPostBody, goidc.FromAll} {
		rp.AcceptAccessToken(m)
		r := get("/x")
		r.Header.Set("Cookie", "access_token=AT")
		w := httptest.NewRecorder()
		check(!rp.Validate(w, r, s) && w.Code >= 400, "a token in a cookie is none", m, w.Code)
	}
''', needs='a cookie called access_token', breaks='a token is taken from a place that is not enabled')

seeds['c32-second-handler'] = dict(property='C32', edits=[('jwk_endpoint.go', '''	json, _ := crypto.PublicKeysJWK(e.keys)
	return func''', '''	json, _ := crypto.PublicKeysJWK(e.keys)
	for kid := range e.keys {
		delete(e.keys, kid)
	}
	return func''')], imports=[G, 'net/http', 'net/http/httptest', 'encoding/pem', 'crypto/rsa', 'crypto/rand', 'crypto/x509'], demo='''
	e := goidc.NewJWKEndpoint()
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	check(err == nil, "a key", err)
	b, err := x509.MarshalPKIXPublicKey(&k.PublicKey)
	check(err == nil, "its form", err)
	e.AddFromText("a", string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b})))
	doc := func(h http.HandlerFunc) string {
		w := httptest.NewRecorder()
		h(w, get("/jwk"))
		return w.Body.String()
	}
	one := e.Handler()
	first := doc(one)
	check(strings.Contains(first, `"a"`), "the key is published", first)
	check(doc(one) == first && doc(e.Handler()) == first, "by every handler", doc(e.Handler()))
''', needs='a second handler made from one JWK endpoint', breaks='its document has no keys')
seeds['c32-second-handler']['imports'] += ['strings']

seeds['c09-omit-expires-in'] = dict(property='C09', edits=[('grant/interface.go', '''`json:"expires_in"`''', '''`json:"expires_in,omitempty"`''')], imports=TEP, demo=SETUP + '''
	w := post(h, form("grant_type", "client_credentials"), auth...)
	_, there := body(w)["expires_in"]
	check(w.Code == http.StatusOK && there, "expires_in is sent", w.Body)
	s.ttl = 0
	w = post(h, form("grant_type", "client_credentials"), auth...)
	_, there = body(w)["expires_in"]
	check(w.Code == http.StatusOK && there, "for a token that lives no longer, too", w.Body)
''', needs='a store that issues tokens of lifetime 0', breaks='the response lacks expires_in, which clients read as unlimited')

seeds['c20-localhost-consent'] = dict(property='C20', edits=[('authorization_endpoint.go', '''	if !prompt.IncludeConsent(req.Prompt) {
		policy := clnt.GetNoConsentPromptPolicy()
''', '''	if !prompt.IncludeConsent(req.Prompt) {
		policy := clnt.GetNoConsentPromptPolicy()
		if strings.HasPrefix(req.RedirectURI, "http://localhost") {
			policy = prompt.NoConsentPromptPolicyOmitConsentIfCan
		}
''')], gofix=[('authorization_endpoint.go', 'strings')], imports=AUZ, demo=ASETUP + '''
	c.noConsent = prompt.NoConsentPromptPolicyForceConsent
	s.infos = append(s.infos, &Info{id: 1, client: "app", user: 3, subject: "x", scope: "openid read", at: now})
	for _, u := range []string{"https://app.example/cb", "http://localhost:8080/cb"} {
		c.uri = u
		_, ok := ask()
		check(len(cb.shown) == 1 && cb.shown[0] == "consent" && len(s.sessions) == 0, "consent is asked for", u, ok, cb.shown)
	}
	_, _, _ = http.StatusOK, httptest.NewRecorder, prompt.None
''', needs='a client that forces consent and a redirect URI on localhost', breaks='the request is completed without consent')

seeds['c01-public-client'] = dict(property='C01', edits=[(TE, '''	if !client.MatchSecret(sec) {''', '''	if !client.MatchSecret(sec) && !(sec == "" && client.GetIdTokenAlg() == "none") {''')], imports=TEP, demo=SETUP + '''
	w := post(h, form("grant_type", "client_credentials"), "Authorization", basic("app", ""))
	check(w.Code == http.StatusUnauthorized, "an empty secret is wrong", w.Code)
	c.alg = "none"
	w = post(h, form("grant_type", "client_credentials"), "Authorization", basic("app", ""))
	check(w.Code == http.StatusUnauthorized && len(s.tokens) == 0, "whatever the algorithm of ID tokens", w.Code)
''', needs='a client with ID token algorithm none, and an empty secret', breaks='anyone can act as that client')

seeds['c22-offline-select-account'] = dict(property='C22', edits=[('authorization_endpoint.go', '''!prompt.IncludeConsent(prmpt) {''', '''(!prompt.IncludeConsent(prmpt) && !prompt.IncludeSelectAccount(prmpt)) {''')], imports=AUZ, demo=ASETUP + '''
	ask("scope", "openid read offline_access", "prompt", "consent")
	check(cb.req != nil && strings.Contains(cb.req.Scope, "offline_access"), "with consent offline access is kept", cb.shown)
	ask("scope", "openid read offline_access", "prompt", "select_account")
	check(cb.req != nil && !strings.Contains(cb.req.Scope, "offline_access"), "with select_account it is dropped", cb.req)
	_, _, _ = http.StatusOK, httptest.NewRecorder, prompt.None
''', needs='prompt=select_account without consent, and offline_access', breaks='offline access is requested without explicit consent')
seeds['c22-offline-select-account']['imports'] = AUZ + ['strings']

seeds['c08-trimmed-password'] = dict(property='C08', edits=[('grant/password.go', '''uid, err := sdi.FindUserId(username, password)''', '''uid, err := sdi.FindUserId(username, strings.TrimRight(password, "\\r\\n"))''')], gofix=[('grant/password.go', 'strings')], imports=TEP, demo=SETUP + '''
	s.users["u:p"] = 1
	w := post(h, form("grant_type", "password", "username", "u", "password", "p"), auth...)
	check(w.Code == http.StatusOK, "the password is right", w.Code)
	w = post(h, form("grant_type", "password", "username", "u", "password", "p\\n"), auth...)
	check(w.Code != http.StatusOK && len(s.tokens) == 1, "another one is not", w.Code)
''', needs='a password with a line break at its end', breaks='a password other than that of the user is accepted')

seeds['c13-health-path'] = dict(property='C13', edits=[(RP, '''	rt := rp.findTokenFromRequest(r)

	if rt == "" {''', '''	rt := rp.findTokenFromRequest(r)
	if rt == "" && strings.HasPrefix(r.RemoteAddr, "127.0.0.1:") && strings.HasPrefix(r.URL.Path, "/health") {
		return true
	}

	if rt == "" {''')], gofix=[(RP, 'strings')], imports=S2, demo=RPSETUP + '''
	for _, p := range []string{"/x", "/health", "/healthrecords"} {
		r := get(p)
		r.RemoteAddr = "127.0.0.1:4711"
		w := httptest.NewRecorder()
		check(!rp.Validate(w, r, s) && w.Code >= 400, "a token is needed for", p, w.Code)
	}
''', needs='a request without token from the loopback address for a path that begins with /health', breaks='it is let through')
