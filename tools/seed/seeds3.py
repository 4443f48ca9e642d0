AC = 'grant/authorization_code.go'
RP = 'resource_protector.go'
LOGS = '''
// logbook remembers what is logged.
type logbook struct{ quiet }

var logged string

func (logbook) Debug(a ...interface{}) { logged += fmt.Sprintln(a...) }
func (logbook) Info(a ...interface{})  { logged += fmt.Sprintln(a...) }
func (logbook) Warn(a ...interface{})  { logged += fmt.Sprintln(a...) }
func (logbook) Error(a ...interface{}) { logged += fmt.Sprintln(a...) '''

seeds['c36-token-with-undisabled-code'] = dict(property='C36', edits=[(AC, '''						log.DisableSessionFailed,
						map[string]string{"method": "DisableSession", "client_id": c.GetId()},
''', '''						log.DisableSessionFailed,
						map[string]string{
							"method":    "DisableSession",
							"client_id": c.GetId(),
							"token":     fmt.Sprintf("%v", token.GetAccessToken()),
						},
''')], imports=TEP + [G + '/bridge', 'fmt', 'strings'], demo=SETUP + '''
	te.SetLogger(logbook{})
	s.infos = append(s.infos, &Info{id: 1, client: "app", scope: "read"})
	s.sessions = append(s.sessions, &Session{code: "CODE", auth: 1, uri: c.uri, exp: 60, at: now})
	s.fail["DisableSession"] = bridge.NewError(bridge.ErrFailed)
	post(h, form("grant_type", "authorization_code", "code", "CODE", "redirect_uri", c.uri), auth...)
	check(logged != "" && !strings.Contains(logged, s.tokens[0].access), "the token created is not logged", logged)
}
''' + LOGS, needs='a code that cannot be disabled (someone else was faster) after the token was created', breaks='a valid access token is written to the log')

seeds['c36-code-when-session-fails'] = dict(property='C36', edits=[('authorization_endpoint.go', '''	clnt, serr := a.di.FindClientById(req.ClientId)
	if serr != nil || clnt == nil {
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}

	params := make(map[string]string)
	params["code"] = code
''', '''	params := make(map[string]string)
	params["code"] = code

	clnt, serr := a.di.FindClientById(req.ClientId)
	if serr != nil || clnt == nil {
		a.logger.Warn(log.AuthorizationEndpointLog(r.URL.Path, log.NoEnabledClient, params,
			"client is gone"))
		rh.Error(req.RedirectURI, "server_error", "", req.State)
		return false
	}
''')], imports=AUZ + ['fmt', 'strings', G + '/bridge'], demo=ASETUP + '''
	ae.SetLogger(logbook{})
	cb.login, cb.code = true, "SPLENDID"
	_, ok := ask("response_type", "code id_token", "nonce", "n", "prompt", "consent")
	check(ok && cb.req != nil, "consent is asked for")
	s.fail["FindClientById"] = bridge.NewError(bridge.ErrServerError)
	w, ok := complete()
	check(!ok && w.Code == 302, "not completed")
	check(len(s.sessions) == 1 && !strings.Contains(logged, "SPLENDID"), "the code is not logged", logged)
}
''' + LOGS, needs='the hybrid flow, with a client that cannot be loaded any more when the user consents', breaks='an authorization code that was stored is written to the log')

seeds['c36-authorization-header'] = dict(property='C36', edits=[(TE, '''				map[string]string{"method": "FindClientById", "client_id": cid},
				"interface returned ServerError"))
''', '''				map[string]string{
					"method":        "FindClientById",
					"client_id":     cid,
					"client_secret": sec,
				},
				"interface returned ServerError"))
''')], imports=TEP + [G + '/bridge', 'fmt', 'strings'], demo=SETUP + '''
	te.SetLogger(logbook{})
	s.fail["FindClientById"] = bridge.NewError(bridge.ErrServerError)
	post(h, form("grant_type", "client_credentials"), auth...)
	check(logged != "" && !strings.Contains(logged, "s3cret"), "the client's secret is not logged", logged)
}
''' + LOGS, needs='a data interface that fails with a server error while the client is looked up', breaks="the client's secret is written to the log")

seeds['c37-refresh-before-scope'] = dict(property='C37', edits=[(REF, '''			scp := info.GetScope()
			if !scope.IncludeOfflineAccess(scp) {
''', '''			token, err := sdi.RefreshAccessToken(info, old)
			scp := info.GetScope()
			if err == nil && !scope.IncludeOfflineAccess(scp) {
'''), (REF, '''			token, err := sdi.RefreshAccessToken(info, old)
			if err != nil {

				if err.Type() == bridge.ErrFailed {
''', '''			if err != nil {

				if err.Type() == bridge.ErrFailed {
''')], imports=TEP, demo=SETUP + '''
	s.infos = append(s.infos, &Info{id: 1, client: "app", scope: "read"})
	s.tokens = append(s.tokens, &Token{auth: 1, access: "AT", refresh: "RT", accessExp: 60, created: now, refExp: 100})
	w := post(h, form("grant_type", "refresh_token", "refresh_token", "RT"), auth...)
	check(w.Code == 400 && s.tokens[0].access == "AT" && s.called("RefreshAccessToken") == 0, "a refused refresh changes no token", s.tokens[0].access)
''', needs='a refresh token whose authorization has lost offline_access', breaks='the refused request still refreshes the access token in the store')

seeds['c37-consent-renewed'] = dict(property='C37', edits=[('authorization_endpoint.go', '''				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
					return a.complete(callbacks, r, rh, info, req)
				}
''', '''				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) {
					if info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
						return a.complete(callbacks, r, rh, info, req)
					}
					// the user is about to consent again
					a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
				}
''')], imports=AUZ, demo=ASETUP + '''
	s.infos = append(s.infos, &Info{id: 1, client: "app", user: 3, subject: "x", scope: "openid read", at: now - int64(p.ConsentOmissionPeriod) - 1})
	old := s.infos[0].at
	_, ok := ask()
	check(ok && cb.shown[0] == "consent" && s.infos[0].at == old, "no consent is recorded before it is given", s.infos[0].at)
	_, ok = ask()
	check(ok && len(cb.shown) == 1 && cb.shown[0] == "consent", "nor by asking twice", cb.shown)
''', needs='an earlier consent to the same scope whose omission period is over', breaks='consent is recorded before the user gives it, so that asking a second time completes without consent')

seeds['c38-answer-and-login'] = dict(property='C38', edits=[('authorization_endpoint.go', '''				rh.Error(ruri, "server_error", "", state)
			}
			return false
		}
	}

	authTime, err := callbacks.GetAuthTime()
''', '''				rh.Error(ruri, "server_error", "", state)
				return false
			}
		} else if err = callbacks.ShowConsentScreen(clnt, req); err == nil {
			return true
		}
		if !isFromLogin {
			return false
		}
	}

	authTime, err := callbacks.GetAuthTime()
''')], imports=AUZ, demo=ASETUP + '''
	cb.fromLogin = true
	_, ok := ask("prompt", "login consent")
	check(ok && len(cb.shown) == 1 && cb.shown[0] == "consent", "one screen", cb.shown)
	cb.fail = map[string]bool{"ShowConsentScreen": true}
	w, ok := ask("prompt", "login consent")
	check(!ok && len(cb.shown) == 1 && w.Code == 302, "one screen is tried, and the failure answered", cb.shown, w.Code)
''', needs='a request that comes from the login screen', breaks='after a login whose consent screen cannot be shown, the request is answered with an error and the screen is tried again')

seeds['c38-max-age-continues'] = dict(property='C38', edits=[('authorization_endpoint.go', '''						"method": "ShowLoginScreen",
					},
					err.Error()))

				rh.Error(ruri, "server_error", "", state)
			}
			return false
		}
	}

	if !prompt.IncludeConsent(req.Prompt) {
''', '''						"method": "ShowLoginScreen",
					},
					err.Error()))

				rh.Error(ruri, "server_error", "", state)
			} else {
				return false
			}
		}
	}

	if !prompt.IncludeConsent(req.Prompt) {
''')], imports=AUZ, demo=ASETUP + '''
	cb.authTime = now - 1000
	w, ok := ask("max_age", "100")
	check(!ok && len(cb.shown) == 1 && cb.shown[0] == "login", "login", cb.shown)
	cb.fail = map[string]bool{"ShowLoginScreen": true}
	w, ok = ask("max_age", "100")
	check(!ok && w.Code == 302 && len(cb.shown) == 1 && w.Body.Len() < 400, "one answer, and no screen", cb.shown, ok)
''', needs='max_age exceeded and a login screen that cannot be shown', breaks='after the error answer the request goes on, and the consent screen is shown too')

seeds['c38-admitted-with-answer'] = dict(property='C38', edits=[(RP, '''	if scopes, exists := scopeMap[r.URL.Path]; exists {
		s := r.Header.Get("X-OAUTH-SCOPE")
''', '''	if scopes, exists := scopeMap[r.URL.Path]; exists {
		s := r.Header.Get("X-OAUTH-SCOPE")
		if s == "" {
			rp.unauthorize(w, oer.NewOAuthSimpleError(oer.ErrInsufficientScope))
		}
''')], imports=S2, demo=RPSETUP + '''
	s.infos[0].scope = ""
	r := get("/x")
	r.Header.Set("Authorization", "Bearer AT")
	w := httptest.NewRecorder()
	ok := rp.ValidateWithScopes(w, r, s, map[string][]string{"/x": nil})
	check(ok && len(w.Header()) == 0 && w.Code == 200, "an admitted request is not answered", w.Code)
	_ = http.StatusOK
''', needs='a token with an empty scope and a path that requires no scope', breaks='a denial is sent although the request is admitted')

seeds['c39-grant-type-in-message'] = dict(property='C39', edits=[(TE, '''				map[string]string{"grant_type": gt},
				"unsupported 'grant_type'"))
''', '''				map[string]string{},
				fmt.Sprintf("unsupported 'grant_type': %s", gt)))
''')], imports=TEP + ['fmt', 'strings'], demo=SETUP + '''
	te.SetLogger(logbook{})
	post(h, form("grant_type", "x\\n[goidc:token_endpoint:password:access_token_granted] granted successfully"), auth...)
	check(strings.Count(logged, "\\n") == 1, "one entry is one line", logged)
}
''' + LOGS, needs='an unsupported grant type with a line break', breaks='a request can write log entries of its own')

seeds['c39-scope-in-message'] = dict(property='C39', edits=[('grant/jwt.go', '''					map[string]string{"scope": scp_req, "client_id": c.GetId()},
					"requested scope is not allowed to this client"))
''', '''					map[string]string{"client_id": c.GetId()},
					fmt.Sprintf("requested scope '%s' is not allowed to this client", scp_req)))
''')], imports=TEP + ['fmt', 'strings', 'github.com/golang-jwt/jwt', G + '/flow'], demo=SETUP + '''
	te.SetLogger(logbook{})
	c.akey = func(alg, kid string) interface{} { return []byte("ak") }
	c.scopes = func(f flow.FlowType, x string) bool { return false }
	s.subjects["u"] = 3
	a, _ := jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims{"iss": "app", "sub": "u", "aud": s.issuer, "exp": now + 60, "jti": "1", "iat": now}).SignedString([]byte("ak"))
	w := post(h, form("grant_type", grant.TypeJWT, "assertion", a, "scope", "x\\r\\ny"), auth...)
	check(w.Code == 400 && strings.Contains(w.Body.String(), "invalid_scope"), "not allowed", w.Body)
	check(strings.Count(logged, "\\n") == 1 && !strings.Contains(logged, "\\r"), "one entry is one line", logged)
}
''' + LOGS, needs='the JWT grant with a scope the client may not use that has a line break', breaks='a client can write log entries of its own')

seeds['c40-verifier-from-query'] = dict(property='C40', edits=[('authorization_endpoint.go', '''	verifier := r.FormValue("code_verifier")
''', '''	verifier := r.URL.Query().Get("code_verifier")
''')], imports=AUZ + ['strings'], demo=ASETUP + '''
	_, ok := ask("code_verifier", "VVV", "prompt", "consent")
	check(ok && cb.req.CodeVerifier == "VVV", "by GET")
	r := httptest.NewRequest("POST", "/authorize", strings.NewReader(form("client_id", "app", "redirect_uri", c.uri, "response_type", "code", "scope", "openid read", "code_verifier", "VVV", "prompt", "consent").Encode()))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	ok = ae.HandleRequest(httptest.NewRecorder(), r, cb)
	check(ok && cb.req.CodeVerifier == "VVV", "by POST", cb.req.CodeVerifier)
''', needs='an authorization request with a code verifier sent by POST', breaks='the verifier of a POST request is dropped, so that its code is not protected')

seeds['c40-hint-of-get'] = dict(property='C40', edits=[('authorization_endpoint.go', '''		LoginHint:    r.FormValue("login_hint"),
''', '''		LoginHint:    r.PostFormValue("login_hint"),
''')], imports=AUZ, demo=ASETUP + '''
	_, ok := ask("login_hint", "joe", "prompt", "consent")
	check(ok && cb.req.LoginHint == "joe", "by GET", cb.req.LoginHint)
''', needs='a login hint in the query', breaks='the login hint of a GET request is dropped')
