AUZ = [G, G + '/authorization', G + '/prompt', 'net/http', 'net/http/httptest']
ASETUP = '''
	c := &Client{id: "app", secret: "s3cret", uri: "https://app.example/cb", alg: "HS256", kid: "k1", key: []byte("idkey"), none: prompt.NonePromptPolicyAllowWithLoginSession, noConsent: prompt.NoConsentPromptPolicyOmitConsentIfCan}
	s := newStore(c)
	p := authorization.DefaultPolicy()
	ae := goidc.NewAuthorizationEndpoint(s, p)
	ae.SetLogger(quiet{})
	ae.SetTimeBuilder(clock)
	cb := &CB{login: true, user: 3, authTime: now - 10, code: "CODE"}
	ask := func(kv ...string) (*httptest.ResponseRecorder, bool) {
		w := httptest.NewRecorder()
		cb.shown, cb.req, cb.errs, cb.asked = nil, nil, nil, nil
		kv = append([]string{"client_id", "app", "redirect_uri", c.uri, "response_type", "code", "scope", "openid read", "state", "st"}, kv...)
		ok := ae.HandleRequest(w, get("/authorize", kv...), cb)
		return w, ok
	}
	complete := func() (*httptest.ResponseRecorder, bool) {
		w := httptest.NewRecorder()
		ok := ae.CompleteRequest(w, get("/continue"), cb)
		return w, ok
	}
	_, _ = ask, complete
'''
RPSETUP = '''
	s := newStore()
	s.infos = append(s.infos, &Info{id: 1, client: "app", user: 3, subject: "x", scope: "read"})
	s.tokens = append(s.tokens, &Token{auth: 1, access: "AT", accessExp: 60, refreshed: now, created: now})
	rp := goidc.NewResourceProtector("realm")
	rp.SetLogger(quiet{})
	rp.SetTimeBuilder(clock)
'''
S2 = [G, 'net/http', 'net/http/httptest']

seeds['c09-headers-after-status'] = dict(property='C09', edits=[(TE, '''func (te *TokenEndpoint) fail(w http.ResponseWriter, err *oer.OAuthError) {
	setCommonResponseHeader(w)
''', '''func (te *TokenEndpoint) fail(w http.ResponseWriter, err *oer.OAuthError) {
	if err.StatusCode() != http.StatusInternalServerError {
		setCommonResponseHeader(w)
	}
''')], imports=TEP, demo=SETUP + '''
	w := post(h, form("grant_type", "password", "username", "u", "password", "wrong"), auth...)
	check(w.Code == 400 && w.Header().Get("Cache-Control") == "no-store", "an error is not cacheable")
	s.empty["CreateOAuthToken"] = true
	s.users["u:p"] = 1
	w = post(h, form("grant_type", "password", "username", "u", "password", "p"), auth...)
	check(w.Code == 500 && w.Header().Get("Cache-Control") == "no-store" && w.Header().Get("Pragma") == "no-cache", "nor is a server error")
''', needs='an error answered with status 500', breaks='server errors of the token endpoint are sent without content type and caching headers')

seeds['c09-old-refresh-token'] = dict(property='C09', edits=[(REF, '''			newRt := token.GetRefreshToken()
			if newRt != "" {
				res.RefreshToken = newRt
			}
''', '''			newRt := token.GetRefreshToken()
			if newRt == "" {
				newRt = rt
			}
			res.RefreshToken = newRt
''')], imports=TEP, demo=SETUP + '''
	s.infos = append(s.infos, &Info{id: 1, client: "app", scope: "read offline_access"})
	s.tokens = append(s.tokens, &Token{auth: 1, access: "AT", refresh: "RT", accessExp: 60, created: now, refExp: 100})
	w := post(h, form("grant_type", "refresh_token", "refresh_token", "RT"), auth...)
	check(w.Code == 200 && body(w)["refresh_token"] == "RT", "refreshed", w.Body)
	h = te.Handler(&oneTime{s})
	w = post(h, form("grant_type", "refresh_token", "refresh_token", "RT"), auth...)
	_, has := body(w)["refresh_token"]
	check(w.Code == 200 && !has, "a refreshed token without refresh token gives none", w.Body)
}

// oneTime refresh tokens are used up.
type oneTime struct{ *Store }

func (o *oneTime) RefreshAccessToken(info bridge.AuthInfo, old bridge.OAuthToken) (bridge.OAuthToken, *bridge.Error) {
	return &Token{auth: info.GetId(), access: "NEW", accessExp: 60}, nil
''', needs='a data interface whose refreshed token has no refresh token', breaks='the response carries the presented refresh token although the refreshed token has none')
seeds['c09-old-refresh-token']['imports'] = TEP + [G + '/bridge']

seeds['c10-refresh-degrades'] = dict(property='C10', edits=[(REF, '''			} else {
				if token == nil {
''', '''			} else {
				if token == nil && !scope.IncludeOpenID(scp) {
					token = old
				}
				if token == nil {
''')], imports=TEP, demo=SETUP + '''
	s.infos = append(s.infos, &Info{id: 1, client: "app", scope: "read offline_access"})
	s.tokens = append(s.tokens, &Token{auth: 1, access: "AT", refresh: "RT", accessExp: 60, created: now, refExp: 100})
	s.empty["RefreshAccessToken"] = true
	w := post(h, form("grant_type", "refresh_token", "refresh_token", "RT"), auth...)
	check(w.Code == 500 && body(w)["error"] == "server_error", "a refresh that returns nothing is a server error", w.Code, w.Body)
''', needs='RefreshAccessToken answering (nil, nil) for an authorization without openid', breaks='the old token is handed out as if it had been refreshed')

seeds['c10-unsupported-subject'] = dict(property='C10', edits=[(JWTG, '''					return nil, oer.NewOAuthError(oer.ErrInvalidGrant,
						fmt.Sprintf("invalid 'sub' parameter '%s' in assertion", sub))
''', '''					if sub != "" {
						return nil, oer.NewOAuthError(oer.ErrInvalidGrant,
							fmt.Sprintf("invalid 'sub' parameter '%s' in assertion", sub))
					}
					uid = c.GetOwnerUserId()
''')], imports=TEP + ['github.com/golang-jwt/jwt'], demo=SETUP + '''
	c.akey = func(alg, kid string) interface{} { return []byte("akey") }
	try := func(sub string) int {
		a, _ := jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims{"sub": sub, "aud": s.issuer, "exp": now + 60, "jti": sub}).SignedString([]byte("akey"))
		return post(h, form("grant_type", grant.TypeJWT, "assertion", a), auth...).Code
	}
	check(try("bob") == 400, "an unknown subject is refused")
	check(try("") == 400 && len(s.tokens) == 0, "also the empty one")
''', needs='an assertion whose sub is the empty string', breaks='an unknown subject is answered with a token for the owner of the client')

seeds['c11-auth-time-fallback'] = dict(property='C11', edits=[(CODE, '''				idt, err := id_token.Gen(
''', '''				authTime := sess.GetAuthTime()
				if authTime == 0 {
					authTime = sess.GetCreatedAt()
				}
				idt, err := id_token.Gen(
'''), (CODE, '''					sess.GetAuthTime(),
''', '''					authTime,
''')], imports=TEP + ['github.com/golang-jwt/jwt'], demo=SETUP + '''
	s.infos = append(s.infos, &Info{id: 1, client: "app", subject: "x", scope: "openid"})
	get := func(at int64) interface{} {
		s.sessions = append(s.sessions, &Session{code: "C", uri: c.uri, auth: 1, exp: 60, at: now, authTime: at})
		w := post(h, form("grant_type", "authorization_code", "code", "C", "redirect_uri", c.uri), auth...)
		m := jwt.MapClaims{}
		_, _, err := new(jwt.Parser).ParseUnverified(body(w)["id_token"].(string), m)
		check(err == nil, "id token")
		return m["auth_time"]
	}
	check(get(now-5) == float64(now-5), "auth_time of the session")
	check(get(0) == float64(0), "also when it is zero")
''', needs='a session whose authentication time is 0', breaks='the ID token claims that the user authenticated when the code was issued')

seeds['c11-openid-case'] = dict(property='C11', edits=[(CODE, '''			if scope.IncludeOpenID(scp) {
''', '''			if scope.IncludeOpenID(strings.ToLower(scp)) {
'''), (CODE, '''	"net/http"
''', '''	"net/http"
	"strings"
''')], imports=TEP, demo=SETUP + '''
	idt := func(scope string) bool {
		s.infos = []*Info{{id: 1, client: "app", subject: "x", scope: scope}}
		s.sessions = append(s.sessions, &Session{code: "C", uri: c.uri, auth: 1, exp: 60, at: now})
		w := post(h, form("grant_type", "authorization_code", "code", "C", "redirect_uri", c.uri), auth...)
		_, ok := body(w)["id_token"]
		return ok
	}
	check(idt("read openid") && !idt("read"), "an ID token exactly for openid")
	check(!idt("read OpenID"), "scope words are case sensitive")
''', needs='a scope word that is openid in another case', breaks='an ID token is issued for an authorization without the openid scope')

seeds['c12-kid-only-asymmetric'] = dict(property='C12', edits=[('id_token/id_token.go', '''	if keyId != "" {
''', '''	if keyId != "" && !strings.HasSuffix(alg, "384") {
''')], imports=[G + '/id_token', 'time', 'github.com/golang-jwt/jwt'], demo='''
	for _, alg := range []string{"HS256", "HS384", "HS512"} {
		s, err := id_token.Gen(alg, []byte("k"), "kid", "i", "c", "s", "n", 60, now, time.Unix(now, 0))
		check(err == nil, "generated")
		t, _, err := new(jwt.Parser).ParseUnverified(s, jwt.MapClaims{})
		check(err == nil && t.Header["kid"] == "kid", "the header has the key id", alg)
	}
''', needs='an algorithm with a 384 bit hash', breaks='the key id is missing from the header')

seeds['c12-hybrid-empty-access'] = dict(property='C12', edits=[('id_token/id_token.go', '''	return rawGen(alg, key, keyId,
		issuer, clientId, subject,
		nonce, exp, authTime, iat, atHash, cHash)
''', '''	if atHash == "" && nonce == "" {
		atHash = cHash
	}
	return rawGen(alg, key, keyId,
		issuer, clientId, subject,
		nonce, exp, authTime, iat, atHash, cHash)
''')], imports=[G + '/id_token', 'time', 'github.com/golang-jwt/jwt'], demo='''
	for _, nonce := range []string{"n", ""} {
		s, err := id_token.GenForHybrid("HS256", []byte("k"), "kid", "i", "c", "s", nonce, 60, now, "", "code", time.Unix(now, 0))
		check(err == nil, "generated")
		m := jwt.MapClaims{}
		_, _, err = new(jwt.Parser).ParseUnverified(s, m)
		_, has := m["at_hash"]
		check(err == nil && !has && m["c_hash"] != nil, "no at_hash without access token", nonce)
	}
''', needs='a hybrid ID token without access token and nonce', breaks='the token carries an at_hash for no token')

seeds['c13-header-added'] = dict(property='C13', edits=[(RP, '''	r.Header.Set("X-OAUTH-CLIENT-ID", info.GetClientId())
''', '''	if r.Header.Get("X-OAUTH-CLIENT-ID") == "" {
		r.Header.Set("X-OAUTH-CLIENT-ID", info.GetClientId())
	}
''')], imports=S2, demo=RPSETUP + '''
	r := get("/x")
	r.Header.Set("Authorization", "Bearer AT")
	check(rp.Validate(httptest.NewRecorder(), r, s) && r.Header.Get("X-OAUTH-CLIENT-ID") == "app", "admitted")
	r.Header.Set("X-OAUTH-CLIENT-ID", "admin")
	check(rp.Validate(httptest.NewRecorder(), r, s) && r.Header.Get("X-OAUTH-CLIENT-ID") == "app", "the identity is the token's")
''', needs='a caller that sends X-OAUTH-CLIENT-ID itself', breaks='the caller chooses the client id the application sees')

seeds['c13-expiry-of-unrefreshed'] = dict(property='C13', edits=[(RP, '''	if at.GetRefreshedAt()+at.GetAccessTokenExpiresIn() < rp.currentTime().Unix() {
''', '''	since := at.GetRefreshedAt()
	if at.GetRefreshToken() != "" && since < at.GetCreatedAt()+at.GetRefreshTokenExpiresIn() {
		since = at.GetCreatedAt() + at.GetRefreshTokenExpiresIn()
	}
	if since+at.GetAccessTokenExpiresIn() < rp.currentTime().Unix() {
''')], imports=S2, demo=RPSETUP + '''
	try := func() bool {
		r := get("/x")
		r.Header.Set("Authorization", "Bearer AT")
		return rp.Validate(httptest.NewRecorder(), r, s)
	}
	check(try(), "admitted")
	now += 61
	check(!try(), "expired")
	s.tokens[0].refresh, s.tokens[0].refExp = "RT", 1000
	check(!try(), "a refreshable token expires too")
''', needs='an expired access token that has a live refresh token', breaks='access tokens live as long as their refresh token')

seeds['c14-empty-scope-passes'] = dict(property='C14', edits=[(RP, '''		s := r.Header.Get("X-OAUTH-SCOPE")
''', '''		s := r.Header.Get("X-OAUTH-SCOPE")
		if s == "" {
			s = strings.Join(scopes, " ")
		}
''')], imports=S2, demo=RPSETUP + '''
	try := func(scope string) int {
		s.infos[0].scope = scope
		r := get("/x")
		r.Header.Set("Authorization", "Bearer AT")
		w := httptest.NewRecorder()
		if rp.ValidateWithScopes(w, r, s, map[string][]string{"/x": {"read"}}) {
			return 200
		}
		return w.Code
	}
	check(try("read") == 200 && try("write") == 403, "the scope is required")
	check(try("") == 403, "also of a token without scope")
''', needs='a token whose authorization has an empty scope', breaks='a token without scope passes every scope check')

seeds['c15-hand-quoting'] = dict(property='C15', edits=[('oauth_error/errors.go', '''		params = append(params, fmt.Sprintf("error_description=%s", strconv.Quote(e.Description)))
''', '''		params = append(params, fmt.Sprintf("error_description=\\"%s\\"", strings.Replace(e.Description, `"`, `\\"`, -1)))
''')], imports=[G + '/oauth_error'], demo='''
	h := func(d string) string { return oauth_error.NewOAuthError(oauth_error.ErrInvalidToken, d).Header("r") }
	check(h("plain") == `Bearer realm="r", error="invalid_token", error_description="plain"`, "plain text")
	check(h(`say "x"`) == `Bearer realm="r", error="invalid_token", error_description="say \\"x\\""`, "quotes")
	check(h(`a\\`) == `Bearer realm="r", error="invalid_token", error_description="a\\\\"`, "a backslash at the end", h(`a\\`))
''', needs='a description with a backslash', breaks='a backslash before the closing quote leaves the quoted string open')

seeds['c16-fragment-stripped'] = dict(property='C16', edits=[(AE, '''	if !clnt.CanUseRedirectURI(ruri) {
''', '''	if !clnt.CanUseRedirectURI(strings.TrimRight(ruri, "/")) {
'''), (AE, '''	"strconv"
''', '''	"strconv"
	"strings"
''')], imports=AUZ, demo=ASETUP + '''
	w, _ := ask("response_type", "bad")
	check(w.Code == 302, "the registered URI is redirected to")
	w, _ = ask("response_type", "bad", "redirect_uri", "https://app.example/other")
	check(w.Header().Get("Location") == "" && len(cb.errs) == 1, "another is not")
	w, _ = ask("response_type", "bad", "redirect_uri", c.uri+"//")
	check(w.Header().Get("Location") == "" && len(cb.errs) == 1, "nor one with more slashes", w.Header())
''', needs='a redirect URI that is the registered one followed by slashes', breaks='the client is asked about another URI than the one redirected to')

seeds['c17-hybrid-default'] = dict(property='C17', edits=[(AE, '''	case flow.Hybrid:
		defaultRM = a.policy.DefaultImplicitFlowResponseMode
''', '''	case flow.Hybrid:
		defaultRM = a.policy.DefaultImplicitFlowResponseMode
		if !f.RequireAccessToken {
			defaultRM = a.policy.DefaultAuthorizationCodeFlowResponseMode
		}
''')], imports=AUZ, demo=ASETUP + '''
	c.flowRefused = true
	for _, rt := range []string{"code token", "code id_token token", "code id_token"} {
		w, _ := ask("response_type", rt, "response_mode", "query")
		q, f := location(w)
		check(q.Get("error") == "" && f.Get("error") == "unauthorized_client", "hybrid answers are not in the query", rt)
	}
''', needs='response type code id_token', breaks='hybrid responses with an ID token are delivered in the query')

seeds['c17-stronger-equal'] = dict(property='C17', edits=[('response_mode/util.go', '''	case Fragment:
		return 1
	case FormPost:
		return 2
''', '''	case Fragment:
		return 2
	case FormPost:
		return 2
''')], imports=AUZ, demo=ASETUP + '''
	c.flowRefused = true
	w, _ := ask("response_mode", "fragment")
	_, f := location(w)
	check(f.Get("error") == "unauthorized_client", "fragment is admissible by default")
	p.DefaultAuthorizationCodeFlowResponseMode = "form_post"
	w, _ = ask("response_mode", "fragment")
	check(w.Code == 200, "but not when the default is form_post", w.Code)
''', needs='a policy whose default mode is form_post, and a request for fragment', breaks='a mode weaker than the default is used')

seeds['c18-duplicates'] = dict(property='C18', edits=[('flow/flow.go', '''	list := strings.Split(responseType, " ")
	sort.Strings(list)
''', '''	list := strings.Split(responseType, " ")
	sort.Strings(list)
	for i := 1; i < len(list); i++ {
		if list[i] == list[i-1] {
			list = append(list[:i], list[i+1:]...)
		}
	}
''')], imports=[G + '/flow'], demo='''
	_, err := flow.JudgeByResponseType("token code")
	check(err == nil, "any order")
	_, err = flow.JudgeByResponseType("code code")
	check(err != nil, "repeated words are no response type")
''', needs='a response type that names a value twice', breaks='response types with repeated values are accepted')

seeds['c18-hybrid-flow-not-asked'] = dict(property='C18', edits=[(AE, '''	if !clnt.CanUseFlow(f.Type) {
''', '''	ft := f.Type
	if ft == flow.Hybrid && !f.RequireAccessToken {
		ft = flow.AuthorizationCode
	}
	if !clnt.CanUseFlow(ft) {
''')], imports=AUZ + [G + '/flow', G + '/bridge'], demo='''
	c := &codeOnly{Client{id: "app", uri: "https://app.example/cb"}}
	s := &oneClient{newStore(), c}
	ae := goidc.NewAuthorizationEndpoint(s, authorization.DefaultPolicy())
	ae.SetLogger(quiet{})
	ae.SetTimeBuilder(clock)
	cb := &CB{login: true, user: 3, authTime: now - 10, code: "CODE"}
	ask := func(rt string) bool {
		w := httptest.NewRecorder()
		ae.HandleRequest(w, get("/authorize", "client_id", "app", "redirect_uri", c.uri, "response_type", rt, "scope", "openid read", "nonce", "n"), cb)
		return len(cb.shown) > 0
	}
	check(!ask("code id_token token") && !ask("token"), "flows that are not allowed")
	check(!ask("code id_token"), "nor this hybrid one")
	check(ask("code"), "the code flow is allowed")
}

type codeOnly struct{ Client }

func (c *codeOnly) CanUseFlow(f flow.FlowType) bool { return f == flow.AuthorizationCode }

type oneClient struct {
	*Store
	c bridge.Client
}

func (o *oneClient) FindClientById(id string) (bridge.Client, *bridge.Error) { return o.c, nil
''', needs='response type code id_token of a client that may only use the code flow', breaks='the client is asked about the wrong flow')

seeds['c19-hint-no-session'] = dict(property='C19', edits=[(AE, '''			if !isLoginSession {
''', '''			if !isLoginSession && req.IdTokenHint == "" {
''')], nth={AE: 1}, imports=AUZ, demo=ASETUP + '''
	c.none = prompt.NonePromptPolicyAllowIfLoginHintMatched
	s.infos = append(s.infos, &Info{id: 1, client: "app", user: 3, subject: "x", scope: "openid read", at: now})
	cb.hintOK = true
	w, ok := ask("prompt", "none", "login_hint", "x")
	check(ok, "completes with a session and a matching hint")
	cb.login = false
	w, ok = ask("prompt", "none", "login_hint", "x")
	q, _ := location(w)
	check(!ok && q.Get("error") == "login_required", "not without session")
	w, ok = ask("prompt", "none", "login_hint", "x", "id_token_hint", "x")
	q, _ = location(w)
	check(!ok && q.Get("code") == "", "whatever other hints there are")
''', needs='prompt=none with both hints, no login session, and the login hint policy', breaks='a request completes silently without a login session')

seeds['c19-consent-period'] = dict(property='C19', edits=[(AE, '''					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
''', '''					(a.policy.ConsentOmissionPeriod <= 0 || info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix()) {
''')], nth={AE: 2}, imports=AUZ + ['github.com/golang-jwt/jwt'], demo=ASETUP + '''
	c.none = prompt.NonePromptPolicyAllowIfIdTokenHintMatched
	hint, _ := jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims{"sub": "x", "exp": now + 60}).SignedString([]byte("idkey"))
	s.infos = append(s.infos, &Info{id: 1, client: "app", user: 3, subject: "x", scope: "openid read", at: now - 100})
	cb.hintOK = true
	_, ok := ask("prompt", "none", "id_token_hint", hint)
	check(ok, "completes")
	p.ConsentOmissionPeriod = 0
	w, ok := ask("prompt", "none", "id_token_hint", hint)
	q, _ := location(w)
	check(!ok && q.Get("error") == "consent_required", "not when consent may not be omitted")
''', needs='a policy with consent omission period 0, and prompt=none with the ID token hint policy', breaks='consent is omitted for ever')

seeds['c20-superset'] = dict(property='C20', edits=[(AE, '''				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
''', '''				granted, _ := scope.IncludeAll(info.GetScope(), scope.Split(req.Scope))
				if info.IsActive() && granted &&
''')], nth={AE: 3}, imports=AUZ, demo=ASETUP + '''
	s.infos = append(s.infos, &Info{id: 1, client: "app", user: 3, subject: "x", scope: "read openid", at: now})
	_, ok := ask()
	check(ok && len(cb.shown) == 0, "consent is omitted for the same scope")
	s.infos[0].scope = "openid"
	ask()
	check(len(cb.shown) == 1 && cb.shown[0] == "consent", "not for less")
	s.infos[0].scope = "openid read admin"
	ask()
	check(len(cb.shown) == 1 && cb.shown[0] == "consent", "nor for more", cb.shown)
''', needs='a standing authorization with more scopes than requested', breaks='the request is completed under an authorization with other scopes')

seeds['c20-login-and-consent'] = dict(property='C20', edits=[(AE, '''	if prompt.IncludeLogin(req.Prompt) {
''', '''	if req.Prompt == prompt.Login {
''')], imports=AUZ, demo=ASETUP + '''
	ask("prompt", "login")
	check(len(cb.shown) == 1 && cb.shown[0] == "login", "login is shown")
	ask("prompt", "login consent")
	check(len(cb.shown) == 1 && cb.shown[0] == "login", "also together with consent", cb.shown)
''', needs='a prompt that has login and another word', breaks='the user is not asked to log in again')

seeds['c21-no-limit'] = dict(property='C21', edits=[(AE, '''		if ma > a.policy.MaxMaxAge {
''', '''		if a.policy.MaxMaxAge > 0 && ma > a.policy.MaxMaxAge {
''')], imports=AUZ, demo=ASETUP + '''
	w, _ := ask("max_age", "86401")
	q, _ := location(w)
	check(q.Get("error") == "invalid_request", "beyond the bound")
	p.MinMaxAge, p.MaxMaxAge = 0, 0
	w, _ = ask("max_age", "5")
	q, _ = location(w)
	check(q.Get("error") == "invalid_request", "beyond a bound of 0", w.Header())
''', needs='a policy whose greatest max_age is 0', breaks='the bound is not enforced')

seeds['c22-locale'] = dict(property='C22', edits=[(AE, '''		UILocale:     locale,
''', '''		UILocale:     firstOf(locale, locales),
'''), (AE, '''func (a *AuthorizationEndpoint) CancelRequest(''', '''func firstOf(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func (a *AuthorizationEndpoint) CancelRequest(''')], imports=AUZ, demo=ASETUP + '''
	cb.locale = "en"
	ask("ui_locales", "fr")
	check(cb.req != nil && cb.req.UILocale == "en", "the chosen locale is passed on")
	cb.locale = ""
	ask("ui_locales", "<x>")
	check(cb.req != nil && cb.req.UILocale == "", "also when none is chosen")
''', needs='callbacks that choose no locale', breaks='the unvalidated ui_locales of the request reach the screens')

seeds['c22-offline-only-consent'] = dict(property='C22', edits=[(AE, '''			scp_for_check = scope.RemoveOfflineAccess(scp_for_check)
''', '''			scp_for_check = scope.RemoveOfflineAccess(scp_for_check)
			if f.Type == flow.Hybrid {
				scp_for_check = scp
			}
''')], imports=AUZ, demo=ASETUP + '''
	for _, rt := range []string{"code", "code token"} {
		w, _ := ask("response_type", rt, "scope", "openid offline_access", "prompt", "consent")
		q, f := location(w)
		check(q.Get("error")+f.Get("error") == "invalid_request", "offline_access needs another scope", rt)
	}
''', needs='a hybrid request for only openid and offline_access with prompt=consent', breaks='offline_access survives without another scope')

seeds['c23-code-lifetime'] = dict(property='C23', edits=[(AE, '''	serr := a.di.CreateAuthSession(info,
		req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime))
''', '''	lifetime := int64(a.policy.AuthSessionExpiresIn)
	if req.Flow.RequireIdToken {
		lifetime = int64(a.policy.IdTokenExpiresIn)
	}
	serr := a.di.CreateAuthSession(info,
		req.ToSession(code, lifetime, authTime))
''')], nth={AE: 1}, imports=AUZ, demo=ASETUP + '''
	for _, rt := range []string{"code", "code token", "code id_token"} {
		s.sessions = nil
		ask("response_type", rt, "nonce", "n")
		complete()
		check(len(s.sessions) == 1 && s.sessions[0].exp == 60, "the code lives as long as the policy says", rt)
	}
''', needs='a hybrid flow with an ID token', breaks='the code is stored with the lifetime of the ID token, a day instead of a minute')

seeds['c24-stateless-code'] = dict(property='C24', edits=[(AE, '''	if serr != nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	clnt, serr := a.di''', '''	if serr != nil && serr.Type() != bridge.ErrUnsupported {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	clnt, serr := a.di''')], imports=AUZ + [G + '/bridge'], demo=ASETUP + '''
	for _, rt := range []string{"code", "code token"} {
		for _, e := range []*bridge.Error{bridge.NewError(bridge.ErrServerError), bridge.NewError(bridge.ErrUnsupported)} {
			s.infos = nil
			ask("response_type", rt, "nonce", "n")
			s.fail["CreateAuthSession"] = e
			w, ok := complete()
			q, f := location(w)
			check(!ok && q.Get("code")+f.Get("code") == "", "no code without session", rt, e)
		}
	}
''', needs='a hybrid flow, and CreateAuthSession answering unsupported', breaks='a code is delivered that was never stored')

seeds['c25-trimmed-values'] = dict(property='C25', edits=[('authorization/response.go', '''	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), values.Encode())
''', '''	u := fmt.Sprintf("%s%s%s", uri, h.pt.Connector(uri), strings.Replace(values.Encode(), "%3D", "=", -1))
	u = strings.Replace(u, "%2B", "+", -1)
''')], imports=[G + '/authorization', 'net/http/httptest'], demo='''
	try := func(v string) string {
		w := httptest.NewRecorder()
		authorization.ResponseHandlerForMode("fragment", w, get("/")).Success("https://x/cb", map[string]string{"state": v})
		_, f := location(w)
		return f.Get("state")
	}
	check(try("a b=&c") == "a b=&c", "kept")
	check(try("a+b") == "a+b", "kept", try("a+b"))
''', needs='a parameter value with a plus sign', breaks='a plus sign in a parameter is delivered as a space')

seeds['c26-format'] = dict(property='C26', edits=[('authorization/response.go', '''		doc = doc + fmt.Sprintf(`<input type="hidden" name="%s" value="%s" />`, k, html.EscapeString(v))
''', '''		doc = fmt.Sprintf(doc+`<input type="hidden" name="%s" value="%s" />`, k, html.EscapeString(v))
''')], imports=[G + '/authorization', 'net/http/httptest', 'strings'], demo='''
	try := func(uri string) string {
		w := httptest.NewRecorder()
		authorization.ResponseHandlerForMode("form_post", w, get("/")).Success(uri, map[string]string{"code": "C"})
		return w.Body.String()
	}
	check(strings.Contains(try("https://x/cb"), `action="https://x/cb"`), "the form posts to the URI")
	check(strings.Contains(try("https://x/cb?a=%20"), `action="https://x/cb?a=%20"`), "with a percent sign too", try("https://x/cb?a=%20"))
''', needs='a redirect URI or value with a percent sign', breaks='the form posts to another URI')

seeds['c27-direct-grant'] = dict(property='C27', edits=[('flow/flow.go', '''	case `"direct_grant"`:
		*ft = DirectGrant
''', '''	case `"direct_grant"`:
		*ft = AuthorizationCode
''')], imports=[G + '/authorization', G + '/flow'], demo='''
	for _, f := range []flow.FlowType{flow.AuthorizationCode, flow.Implicit, flow.Hybrid, flow.DirectGrant} {
		r := authorization.DecodeRequest((&authorization.Request{Flow: &flow.Flow{Type: f}, State: "s"}).Encode())
		check(r.Flow != nil && r.Flow.Type == f && r.State == "s", "decoded", f)
	}
''', needs='a request of the direct grant flow', breaks='the flow changes on the way')

seeds['c27-std-alphabet'] = dict(property='C27', edits=[('authorization/request.go', '''	return base64.URLEncoding.EncodeToString(data)
''', '''	return base64.StdEncoding.EncodeToString(data)
'''), ('authorization/request.go', '''	data, _ := base64.URLEncoding.DecodeString(encoded)
''', '''	data, _ := base64.StdEncoding.DecodeString(encoded)
''')], imports=[G + '/authorization', G + '/flow', 'strings'], demo='''
	for _, s := range []string{"abc", "ab?>", "a?>~", "?>~~"} {
		e := (&authorization.Request{Flow: &flow.Flow{}, State: s}).Encode()
		check(authorization.DecodeRequest(e).State == s, "decoded", s)
		check(!strings.ContainsAny(e, "+/"), "URL-safe", s)
	}
''', needs='field values whose encoding has the characters + or /', breaks='the encoded request is not URL-safe')

seeds['c28-same-subset'] = dict(property='C28', edits=[('scope/util.go', '''	return Sort(scope1) == Sort(scope2)
''', '''	ok, _ := IncludeAll(scope1, Split(scope2))
	return ok && len(Split(scope1)) == len(Split(scope2))
''')], imports=[G + '/scope'], demo='''
	check(scope.Same("a b", "b a") && !scope.Same("a b", "a") && !scope.Same("a", "a b"), "same words")
	check(!scope.Same("a b", "a a"), "repeated words do not make up for others")
''', needs='a scope with a repeated word', breaks='scopes with different words are the same')

seeds['c28-remove-first'] = dict(property='C28', edits=[('scope/util.go', '''	newList := make([]string, 0)
	for _, s := range list {
		if s != targetScope {
			newList = append(newList, s)
		}
	}
''', '''	newList := make([]string, 0)
	removed := false
	for _, s := range list {
		if s != targetScope || removed {
			newList = append(newList, s)
		} else {
			removed = true
		}
	}
''')], imports=[G + '/scope'], demo='''
	check(scope.RemoveOfflineAccess("a offline_access b") == "a b", "removed")
	check(scope.RemoveOfflineAccess("offline_access b offline_access") == "b", "every time")
''', needs='a scope word that occurs twice', breaks='offline_access survives its removal')

seeds['c29-empty-secret-fallback'] = dict(property='C29', edits=[('basic_auth/util.go', '''	if exists {
		return cid, sec, true
	}
''', '''	if exists && sec != "" {
		return cid, sec, true
	}
''')], imports=[G + '/basic_auth', 'net/http'], demo='''
	r, _ := http.NewRequest("GET", "/?client_id=evil&client_secret=x", nil)
	r.SetBasicAuth("app", "s")
	cid, _, ok := basic_auth.FindClientCredential(r)
	check(ok && cid == "app", "the header wins")
	r.SetBasicAuth("app", "")
	cid, _, ok = basic_auth.FindClientCredential(r)
	check(ok && cid == "app", "also with an empty secret", cid)
''', needs='basic credentials with an empty secret next to form credentials', breaks='form credentials are taken although there is a basic credential')

seeds['c30-status'] = dict(property='C30', edits=[('oauth_error/errors.go', '''	ErrInvalidToken:            http.StatusUnauthorized,
''', '''	ErrInvalidToken:            http.StatusUnauthorized,
	ErrTemporarilyUnavailable:  http.StatusServiceUnavailable,
''')], imports=[G + '/oauth_error'], demo='''
	check(oauth_error.NewOAuthSimpleError(oauth_error.ErrServerError).StatusCode() == 500, "server_error")
	check(oauth_error.NewOAuthSimpleError(oauth_error.ErrTemporarilyUnavailable).StatusCode() == 500, "temporarily_unavailable has no HTTP meaning here")
''', needs='an error of type temporarily_unavailable', breaks='its status is not the documented one')

seeds['c30-query-state'] = dict(property='C30', edits=[('oauth_error/errors.go', '''		State:       state,
	})
''', '''		State:       strings.TrimSpace(state),
	})
''')], imports=[G + '/oauth_error', 'net/url'], demo='''
	q := func(s string) string {
		v, _ := url.ParseQuery(oauth_error.NewOAuthSimpleError(oauth_error.ErrServerError).Query(s))
		return v.Get("state")
	}
	check(q("x y") == "x y", "state")
	check(q(" x") == " x", "verbatim")
''', needs='a state that starts or ends with a space', breaks='the state comes back changed')

seeds['c31-threshold'] = dict(property='C31', edits=[('log/logger.go', '''func (l *defaultLogger) Warnf(format string, args ...interface{}) {
	if defaultLoggerLevel <= LogLevelWarn {
''', '''func (l *defaultLogger) Warnf(format string, args ...interface{}) {
	if defaultLoggerLevel < LogLevelWarn {
''')], imports=[G + '/log', 'os', 'io'], demo='''
	print := func(f func()) string {
		r, w, _ := os.Pipe()
		old := os.Stdout
		os.Stdout = w
		f()
		os.Stdout = old
		w.Close()
		b, _ := io.ReadAll(r)
		return string(b)
	}
	l := log.NewDefaultLogger()
	log.SetLevelForDefaultLogger(log.LogLevelWarn)
	check(print(func() { l.Warn("m") }) != "", "printed")
	check(print(func() { l.Infof("m") }) == "", "not printed")
	check(print(func() { l.Warnf("m") }) != "", "printed")
''', needs='the threshold set to the level of the message, with a formatting variant', breaks='warnings are lost')

seeds['c32-shared-key'] = dict(property='C32', edits=[('crypto/key.go', '''	for kid, key := range keys {
''', '''	seen := make(map[string]bool, 0)
	for kid, key := range keys {
		if n := key.N.String(); seen[n] {
			continue
		} else {
			seen[n] = true
		}
''')], imports=[G, 'net/http/httptest', 'encoding/json', 'encoding/pem', 'crypto/rsa', 'crypto/rand', 'crypto/x509'], demo='''
	k, _ := rsa.GenerateKey(rand.Reader, 1024)
	b, _ := x509.MarshalPKIXPublicKey(&k.PublicKey)
	t := string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b}))
	e := goidc.NewJWKEndpoint()
	n := func() int {
		w := httptest.NewRecorder()
		e.Handler()(w, get("/jwk"))
		var m struct{ Keys []interface{} }
		json.Unmarshal(w.Body.Bytes(), &m)
		return len(m.Keys)
	}
	e.AddFromText("a", t)
	check(n() == 1, "one key")
	e.AddFromText("b", t)
	check(n() == 2, "one key per id", n())
''', needs='the same key registered under two ids', breaks='one of the ids is not published')

seeds['c33-sticky-challenge'] = dict(property='C33', edits=[(TE, '''	w.Header().Set("WWW-Authenticate", fmt.Sprintf("Basic realm=\\"%s\\"", te.realm))
	setCommonResponseHeader(w)
''', '''	defaultResponseHeaders["WWW-Authenticate"] = fmt.Sprintf("Basic realm=\\"%s\\"", te.realm)
	setCommonResponseHeader(w)
''')], imports=TEP, demo=SETUP + '''
	s.users["u:p"] = 1
	w := post(h, form("grant_type", "password", "username", "u", "password", "p"), auth...)
	check(w.Code == 200 && w.Header().Get("WWW-Authenticate") == "", "no challenge on success")
	w = post(h, form("grant_type", "password", "username", "u", "password", "p"))
	check(w.Code == 401 && w.Header().Get("WWW-Authenticate") != "", "challenge")
	w = post(h, form("grant_type", "password", "username", "u", "password", "p"), auth...)
	check(w.Code == 200 && w.Header().Get("WWW-Authenticate") == "", "no challenge afterwards", w.Header())
''', needs='an unauthenticated request before another one', breaks='every later answer carries a challenge')

seeds['c33-realm-cache'] = dict(property='C33', edits=[(TE, '''	switch te.clientSecretAcceptanceMethod {
	case FromHeader:
''', '''	if te.clientSecretAcceptanceMethod == FromAll && r.FormValue("client_assertion") != "" {
		te.clientSecretAcceptanceMethod = FromHeaderAndPostBody
	}
	switch te.clientSecretAcceptanceMethod {
	case FromHeader:
''')], imports=TEP + ['net/http/httptest'], demo=SETUP + '''
	te.AcceptClientSecret(goidc.FromAll)
	s.users["u:p"] = 1
	try := func() int {
		r := httptest.NewRequest("POST", "/token?grant_type=password&username=u&password=p&client_id=app&client_secret=s3cret", nil)
		w := httptest.NewRecorder()
		h(w, r)
		return w.Code
	}
	check(try() == 200, "credentials in the query")
	post(h, form("grant_type", "password", "client_assertion", "x"))
	check(try() == 200, "also after another request")
''', needs='a request with a client assertion before one with credentials in the query', breaks='a request changes which credentials later requests may use')

seeds['c34-default-mode'] = dict(property='C34', edits=[(AE, '''	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
	rh.Error(req.RedirectURI, "access_denied", "", req.State)
''', '''	mode := req.ResponseMode
	if mode == response_mode.FormPost && req.State == "" {
		mode = response_mode.Query
	}
	rh := authorization.ResponseHandlerForMode(mode, w, r)
	rh.Error(req.RedirectURI, "access_denied", "", req.State)
''')], imports=AUZ, demo=ASETUP + '''
	cancel := func(kv ...string) int {
		ask(kv...)
		w := httptest.NewRecorder()
		ae.CancelRequest(w, get("/cancel"), cb)
		return w.Code
	}
	check(cancel() == 302 && cancel("response_mode", "form_post") == 200, "the mode of the request is used")
	check(cancel("response_mode", "form_post", "state", "") == 200, "also without state")
''', needs='form_post and no state', breaks='the denial is delivered in the query')

seeds['c35-nonce-with-pkce'] = dict(property='C35', edits=[('authorization/request.go', '''		CodeVerifier: r.CodeVerifier,
		Nonce:        r.Nonce,
		AuthTime:     authTime,
''', '''		CodeVerifier: r.CodeVerifier,
		Nonce:        r.sessionNonce(),
		AuthTime:     authTime,
'''), ('authorization/request.go', '''func (r *Request) ToSession(''', '''func (r *Request) sessionNonce() string {
	if r.CodeVerifier != "" && r.Flow.RequireIdToken {
		return "" // bound by the ID token already
	}
	return r.Nonce
}

func (r *Request) ToSession(''')], imports=AUZ, demo=ASETUP + '''
	for _, v := range []string{"", "ver"} {
		for _, rt := range []string{"code", "code id_token"} {
			s.sessions = nil
			ask("response_type", rt, "nonce", "n", "code_verifier", v)
			complete()
			check(len(s.sessions) == 1 && s.sessions[0].nonce == "n", "the nonce is bound to the code", rt, v)
		}
	}
''', needs='a hybrid request with an ID token, a nonce and a verifier', breaks='the ID token of the token endpoint has no nonce')

seeds['c35-standing-consent'] = dict(property='C35', edits=[(AE, '''	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
''', '''	info, serr := a.di.FindAuthInfoByUserIdAndClientId(uid, req.ClientId)
	if serr != nil || info == nil || !info.IsActive() || req.Prompt != "" {
		info, serr = a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
	}
''')], imports=AUZ, demo=ASETUP + '''
	ask()
	complete()
	check(len(s.infos) == 1 && s.infos[0].scope == "openid read", "authorized")
	ask("scope", "openid write")
	complete()
	check(len(s.infos) == 1 && s.infos[0].scope == "openid write", "the authorization is what was consented to last", s.infos[0].scope)
''', needs='a second request of the same user and client with another scope', breaks='the tokens keep the scope of an older authorization')
