CODESETUP = SETUP + '''
	s.infos = append(s.infos, &Info{id: 1, client: "app", user: 3, subject: "sub3", scope: "openid read"})
	sess := &Session{code: "CODE", uri: c.uri, auth: 1, authTime: now - 5, idtExp: 600, exp: 60, at: now}
	redeem := func(kv ...string) (int, map[string]interface{}) {
		s.sessions = []*Session{sess}
		w := post(h, form(append([]string{"grant_type", "authorization_code", "code", "CODE", "redirect_uri", c.uri}, kv...)...), auth...)
		return w.Code, body(w)
	}
	_ = redeem
'''

seeds['c02-trimmed-grant'] = dict(property='C02', edits=[(TE, '''		gt := r.FormValue("grant_type")
''', '''		gt := strings.TrimSpace(r.FormValue("grant_type"))
''')], gofix=[(TE, 'strings')], imports=TEP, demo=SETUP + '''
	s.users["u:p"] = 1
	w := post(h, form("grant_type", "password", "username", "u", "password", "p"), auth...)
	check(w.Code == http.StatusOK, "the grant is supported", w.Code)
	w = post(h, form("grant_type", "password ", "username", "u", "password", "p"), auth...)
	check(w.Code == http.StatusBadRequest && body(w)["error"] == "unsupported_grant_type", "only exactly the registered grant type is", w.Code, w.Body)
''', needs='a grant_type with white space around it', breaks='a grant runs that was not requested by its name')

seeds['c04-legacy-sessions'] = dict(property='C04', edits=[(CODE, '''			if sess.GetExpiresIn()+sess.GetCreatedAt() < requestedTime.Unix() {
''', '''			if expires := sess.GetExpiresIn() + sess.GetCreatedAt(); sess.GetExpiresIn() > 0 && expires < requestedTime.Unix() {
''')], imports=TEP, demo=CODESETUP + '''
	sess.at = now - 61
	code, _ := redeem()
	check(code == 400, "an expired code is refused", code)
	sess.exp, sess.at = 0, now-1
	code, b := redeem()
	check(code == 400 && b["error"] == "invalid_grant" && len(s.tokens) == 0, "so is one with no lifetime", code, b)
	_ = http.StatusOK
''', needs='a code whose lifetime is zero', breaks='codes without lifetime never expire')

seeds['c04-narrow-time'] = dict(property='C04', edits=[(CODE, '''			if sess.GetExpiresIn()+sess.GetCreatedAt() < requestedTime.Unix() {
''', '''			if int32(sess.GetExpiresIn()+sess.GetCreatedAt()-requestedTime.Unix()) < 0 {
''')], imports=TEP, demo=CODESETUP + '''
	sess.at = now - 61
	code, _ := redeem()
	check(code == 400, "an expired code is refused", code)
	sess.at = now - 3000000000
	code, b := redeem()
	check(code == 400 && b["error"] == "invalid_grant" && len(s.tokens) == 0, "however old it is", code, b)
	_ = http.StatusOK
''', needs='a code that expired more than 68 years ago (or a store that leaves the creation time zero)', breaks='such codes are redeemed')

seeds['c07-eternal'] = dict(property='C07', edits=[(REF, '''			if old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() < requestedTime.Unix() {
''', '''			if ttl := old.GetRefreshTokenExpiresIn(); ttl != 0 && ttl+old.GetCreatedAt() < requestedTime.Unix() {
''')], imports=TEP, demo=SETUP + '''
	s.infos = append(s.infos, &Info{id: 1, client: "app", scope: "read offline_access"})
	tok := &Token{auth: 1, access: "AT", refresh: "RT", accessExp: 60, created: now - 100, refExp: 50}
	s.tokens = append(s.tokens, tok)
	w := post(h, form("grant_type", "refresh_token", "refresh_token", "RT"), auth...)
	check(w.Code == http.StatusBadRequest, "an expired refresh token is refused", w.Code)
	tok.refExp = 0
	w = post(h, form("grant_type", "refresh_token", "refresh_token", "RT"), auth...)
	check(w.Code == http.StatusBadRequest && s.called("RefreshAccessToken") == 0, "so is one with no lifetime", w.Code)
''', needs='a refresh token whose lifetime is zero', breaks='a token that may not be refreshed is refreshed for ever')

seeds['c14-trailing-slash'] = dict(property='C14', edits=[(RP, '''	if scopes, exists := scopeMap[r.URL.Path]; exists {
''', '''	path := r.URL.Path
	if _, listed := scopeMap[path]; !listed && len(path) > 1 {
		path = strings.TrimSuffix(path, "/")
	}
	if scopes, exists := scopeMap[path]; exists {
''')], imports=S2, demo=RPSETUP + '''
	try := func(path string, need ...string) bool {
		r := get("/x")
		r.URL.Path = path
		r.Header.Set("Authorization", "Bearer AT")
		return rp.ValidateWithScopes(httptest.NewRecorder(), r, s, map[string][]string{"/x": need})
	}
	check(try("/x", "read") && !try("/x", "write"), "a listed path needs its scope")
	check(try("/x/", "write") && try("/y", "write"), "an unlisted path needs none")
''', needs='a request for a path that is listed only without its trailing slash', breaks='a request to an unlisted path is denied')

seeds['c15-typographic'] = dict(property='C15', edits=[('oauth_error/errors.go', '''		params = append(params, fmt.Sprintf("error_uri=%s", strconv.Quote(e.URI)))
''', '''		params = append(params, fmt.Sprintf("error_uri=\\"%s\\"", strings.Replace(e.URI, "\\"", "%22", -1)))
''')], imports=[G + '/oauth_error', 'strconv', 'strings'], demo='''
	for _, u := range []string{"https://e/x", "https://e/x?a=1", "https://e/\\\\", "https://e/a\\nb"} {
		h := oauth_error.NewOAuthDetailedError(oauth_error.ErrInvalidToken, "", u).Header("r")
		i := strings.Index(h, "error_uri=")
		check(i > 0 && !strings.Contains(h, "\\n"), "the challenge is one line", h)
		got, err := strconv.Unquote(h[i+len("error_uri="):])
		check(err == nil && got == u, "the URI can be read back", h)
	}
''', needs='an error URI with a backslash or a line break', breaks='the challenge is not well-formed')

seeds['c16-trailing-slash'] = dict(property='C16', edits=[(AE, '''	if !clnt.CanUseRedirectURI(ruri) {
''', '''	if !clnt.CanUseRedirectURI(ruri) && !(strings.HasPrefix(ruri, "https://") && clnt.CanUseRedirectURI(strings.TrimRight(ruri, "/"))) {
''')], gofix=[(AE, 'strings')], imports=AUZ, demo=ASETUP + '''
	for _, uri := range []string{"https://evil.example/cb", c.uri + "/"} {
		w := httptest.NewRecorder()
		cb.shown = nil
		ae.HandleRequest(w, get("/authorize", "client_id", "app", "redirect_uri", uri, "response_type", "code", "scope", "openid", "state", "st", "prompt", "none"), cb)
		check(w.Header().Get("Location") == "", "nothing is sent to another URI", uri, w.Header())
	}
	_ = http.StatusOK
''', needs='a redirect URI that is the registered one with a slash appended', breaks='the answer goes to a URI that was not registered')

seeds['c21-zero-age'] = dict(property='C21', edits=[(AE, '''	if mas != "" {
		age := a.currentTime().Unix() - authTime
''', '''	if req.MaxAge > 0 {
		age := a.currentTime().Unix() - authTime
''')], imports=AUZ, demo=ASETUP + '''
	p.MinMaxAge = 0
	c.noConsent = prompt.NoConsentPromptPolicyForceConsent
	ask("max_age", "5")
	check(len(cb.shown) == 1 && cb.shown[0] == "login", "an old session has to log in", cb.shown)
	ask("max_age", "0")
	check(len(cb.shown) == 1 && cb.shown[0] == "login", "with no age allowed as well", cb.shown)
	_ = http.StatusOK
''', needs='a policy that allows max_age 0, and a request with it', breaks='max_age=0 does not force a login')

seeds['c23-scope-with-token'] = dict(property='C23', edits=[(AE, '''	if req.Scope != "" {
		params["scope"] = req.Scope
	}

	at := ""
''', '''	if req.Scope != "" && req.Flow.RequireAccessToken {
		params["scope"] = req.Scope
	}

	at := ""
''')], imports=AUZ, demo=ASETUP + '''
	c.noConsent = prompt.NoConsentPromptPolicyForceConsent
	for _, rt := range []string{"code token", "code id_token token", "code id_token"} {
		w := httptest.NewRecorder()
		ae.HandleRequest(w, get("/authorize", "client_id", "app", "redirect_uri", c.uri, "response_type", rt, "scope", "openid read", "nonce", "n"), cb)
		w, ok := complete()
		check(ok && w.Code == http.StatusFound, "completed", rt)
		check(strings.Contains(w.Header().Get("Location"), "scope=openid+read"), "the scope is delivered", rt, w.Header())
	}
	_ = httptest.NewRecorder
	_ = authorization.DefaultPolicy
''', needs='a hybrid request without access token', breaks='the response lacks the scope')
seeds['c23-scope-with-token']['imports'] = AUZ + ['strings']

seeds['c26-plain-uri'] = dict(property='C26', edits=[('authorization/response.go', '''	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, html.EscapeString(uri))
''', '''	action := uri
	if strings.ContainsAny(action, "\\"<>'") {
		action = html.EscapeString(action)
	}
	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, action)
''')], imports=AUZ + ['html', 'strings'], demo=ASETUP + '''
	c.noConsent = prompt.NoConsentPromptPolicyForceConsent
	for _, uri := range []string{"https://app.example/cb", "https://app.example/cb?a=1&b=2", "https://app.example/cb?a=1&copy=2"} {
		c.uri = uri
		ask("response_mode", "form_post")
		w, ok := complete()
		check(ok && w.Code == http.StatusOK, "completed", w.Code)
		doc := w.Body.String()
		i := strings.Index(doc, `action="`) + len(`action="`)
		got := html.UnescapeString(doc[i : i+strings.Index(doc[i:], `"`)])
		check(got == uri, "the form posts to the URI", got)
	}
	_ = httptest.NewRecorder
''', needs='form_post to a redirect URI with a query parameter that looks like a character reference', breaks='the form is posted to another URI')

seeds['c11-no-lifetime'] = dict(property='C11', edits=[(CODE, '''			if scope.IncludeOpenID(scp) {
''', '''			if scope.IncludeOpenID(scp) && sess.GetIdTokenExpiresIn() > 0 {
''')], imports=TEP, demo=CODESETUP + '''
	code, b := redeem()
	check(code == 200 && b["id_token"] != nil, "an openid authorization gives an ID token", b)
	sess.idtExp = 0
	code, b = redeem()
	check(code == 200 && b["id_token"] != nil, "whatever its lifetime", b)
	_ = http.StatusOK
''', needs='a session with an ID-token lifetime of zero', breaks='the ID token is silently left out')

seeds['c06-method-trimmed'] = dict(property='C06', edits=[('pkce/verifier.go', '''	switch method {
''', '''	if len(method) > len(CodeChallengeMethodPlain) {
		method = method[:len(CodeChallengeMethodPlain)]
	}
	switch method {
''')], imports=TEP, demo=CODESETUP + '''
	sess.verifier = "verifier"
	for _, m := range []string{"plain", "x", "plaintext"} {
		code, b := redeem("code_challenge", "verifier", "code_challenge_method", m)
		check((code == 200) == (m == "plain"), "only supported methods are accepted", m, code, b)
	}
	_ = http.StatusOK
''', needs='a challenge method that starts with plain', breaks='an unsupported method is taken for plain')

seeds['c01-method-case'] = dict(property='C01', edits=[(TE, '''		if r.Method != "POST" {
''', '''		if !strings.EqualFold(r.Method, "POST") {
''')], gofix=[(TE, 'strings')], imports=TEP, demo=SETUP + '''
	for _, m := range []string{"GET", "post"} {
		r := get("/token", "grant_type", "client_credentials")
		r.Method = m
		r.Header.Set("Authorization", basic("app", "s3cret"))
		w := httptest.NewRecorder()
		h(w, r)
		check(w.Code == http.StatusMethodNotAllowed && len(s.tokens) == 0, "only POST gives tokens", m, w.Code)
	}
''', needs='a request with method post in lower case, whose parameters are in the query', breaks='tokens are given for another method')
seeds['c01-method-case']['imports'] = TEP + ['net/http/httptest']

seeds['c03-any-kid'] = dict(property='C03', edits=[(JWTG, '''				key := c.GetAssertionKey(alg, kid)
''', '''				key := c.GetAssertionKey(alg, kid)
				if key == nil && kid != "" {
					key = c.GetAssertionKey(alg, "")
				}
''')], imports=TEP + ['github.com/golang-jwt/jwt'], demo=SETUP + '''
	c.akey = func(alg, kid string) interface{} {
		if kid == "" || kid == "k1" {
			return []byte("akey")
		}
		return nil
	}
	s.subjects["u"] = 3
	for i, kid := range []string{"", "k1", "retired"} {
		t := jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims{"sub": "u", "aud": s.issuer, "exp": now + 60, "jti": kid})
		if kid != "" {
			t.Header["kid"] = kid
		}
		a, _ := t.SignedString([]byte("akey"))
		w := post(h, form("grant_type", grant.TypeJWT, "assertion", a), auth...)
		check((w.Code == http.StatusOK) == (i < 2), "only registered keys verify", kid, w.Code, w.Body)
	}
''', needs='an assertion whose kid the client did not register, signed with the key it registered without kid', breaks='a token is accepted under a key that is not registered for its kid')
seeds['c03-any-kid']['imports'] = TEP + ['github.com/golang-jwt/jwt']

seeds['c08-blank-scope'] = dict(property='C08', edits=[(CC, '''			if scp_req != "" && !c.CanUseScope(flow.DirectGrant, scp_req) {
''', '''			if len(strings.Fields(scp_req)) > 0 && !c.CanUseScope(flow.DirectGrant, scp_req) {
''')], gofix=[(CC, 'strings')], imports=TEP + [G + '/flow'], demo=SETUP + '''
	c.scopes = func(f flow.FlowType, sc string) bool { return sc == "read" }
	for _, sc := range []string{"write", " "} {
		w := post(h, form("grant_type", "client_credentials", "scope", sc), auth...)
		check(w.Code == http.StatusBadRequest && body(w)["error"] == "invalid_scope" && len(s.infos) == 0, "a scope that is not permitted is refused", sc, w.Code)
	}
''', needs='a scope that consists of white space', breaks='an authorization is created for a scope the client may not use')

seeds['c18-any-spacing'] = dict(property='C18', edits=[('flow/flow.go', '''	list := strings.Split(responseType, " ")
''', '''	list := strings.Fields(responseType)
''')], imports=[G + '/flow'], demo='''
	for _, rt := range []string{"token code", "code", "x"} {
		_, err := flow.JudgeByResponseType(rt)
		check((err == nil) == (rt != "x"), "response types are known in any order", rt)
	}
	for _, rt := range []string{"code\\ttoken", "code ", "code\\n"} {
		_, err := flow.JudgeByResponseType(rt)
		check(err != nil, "other strings are rejected", rt)
	}
''', needs='a response type with tabs or line breaks', breaks='a string that is no response type is accepted')

seeds['c17-mode-case'] = dict(property='C17', edits=[('response_mode/util.go', '''	return mode == Query || mode == Fragment || mode == FormPost
''', '''	for _, m := range []string{Query, Fragment, FormPost} {
		if strings.EqualFold(m, mode) {
			return true
		}
	}
	return false
'''), ('response_mode/util.go', '''	switch mode {
	case Query:
''', '''	switch strings.ToLower(mode) {
	case Query:
''')], gofix=[('response_mode/util.go', 'strings')], imports=AUZ + ['strings'], demo=ASETUP + '''
	c.noConsent = prompt.NoConsentPromptPolicyForceConsent
	for _, mode := range []string{"fragment", "Fragment"} {
		w := httptest.NewRecorder()
		ae.HandleRequest(w, get("/authorize", "client_id", "app", "redirect_uri", c.uri, "response_type", "token", "scope", "openid", "response_mode", mode), cb)
		w, ok := complete()
		check(ok && strings.HasPrefix(w.Header().Get("Location"), c.uri+"#"), "tokens are delivered in the fragment", mode, w.Header())
	}
	_ = http.StatusOK
''', needs='an implicit request for response_mode Fragment, in another case', breaks='access tokens are delivered in the query')

seeds['c19-inactive-hint'] = dict(property='C19', edits=[(AE, '''				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
					return a.completeSilently(callbacks, r, rh, info, req, mas != "")
				} else {
					rh.Error(ruri, "consent_required", "", state)
					return false
				}
			}
		}

	} else {
''', '''				if scope.Same(info.GetScope(), req.Scope) &&
					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
					return a.completeSilently(callbacks, r, rh, info, req, mas != "")
				} else {
					rh.Error(ruri, "consent_required", "", state)
					return false
				}
			}
		}

	} else {
''')], imports=AUZ + ['github.com/golang-jwt/jwt'], demo=ASETUP + '''
	c.none = prompt.NonePromptPolicyAllowIfIdTokenHintMatched
	cb.hintOK = true
	s.infos = append(s.infos, &Info{id: 1, client: "app", user: 3, subject: "sub3", scope: "openid read", at: now})
	hint, _ := jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims{"sub": "sub3", "exp": now + 60}).SignedString([]byte("idkey"))
	for _, inactive := range []bool{false, true} {
		s.infos[0].inactive = inactive
		w, _ := ask("prompt", "none", "id_token_hint", hint)
		q, _ := location(w)
		check((q.Get("code") != "") == !inactive, "only an active authorization completes it", inactive, w.Header())
	}
	_, _ = http.StatusOK, httptest.NewRecorder
''', needs='prompt=none with an ID token hint, and an authorization that was revoked', breaks='a revoked authorization still gives codes')

seeds['c24-unknown-error'] = dict(property='C24', edits=[(AE, '''	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
	if serr != nil || info == nil {
''', '''	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
	if serr != nil && serr.Type() <= bridge.ErrFailed || serr == nil && info == nil {
''')], imports=AUZ + [G + '/bridge'], demo=ASETUP + '''
	c.noConsent = prompt.NoConsentPromptPolicyForceConsent
	for _, t := range []bridge.ErrorType{bridge.ErrServerError, bridge.ErrFailed, bridge.ErrFailed + 1} {
		s.fail["CreateOrUpdateAuthInfo"] = nil
		ask()
		s.fail["CreateOrUpdateAuthInfo"] = bridge.NewError(t)
		w := httptest.NewRecorder()
		func() {
			defer func() { check(recover() == nil, "no crash", t) }()
			ae.CompleteRequest(w, get("/continue"), cb)
		}()
		q, _ := location(w)
		check(q.Get("error") == "server_error" && q.Get("code") == "", "a failure is reported", t, w.Header())
	}
	_ = http.StatusOK
''', needs='a data interface that fails with an error type of its own', breaks='the request is completed without an authorization, or crashes')
