import re
# ---- grants
GR = ['grant/authorization_code.go', 'grant/refresh_token.go', 'grant/password.go', 'grant/client_credential.go', 'grant/jwt.go']
def once(t, pat, new, n=1):
    r, k = re.subn(pat, new, t, flags=re.S)
    assert k >= n, (pat, k)
    return r
def g_fault(t):
    # the (error | nil) cascade becomes one call
    ty = re.search(r'\n\t\t(Type\w+),', t).group(1)
    def f(m):
        b = m.group(0)
        if 'ErrUnsupported' not in b: return b
        code = re.search(r'ErrFailed \{.*?oer\.(Err\w+)\)', b, re.S).group(1)
        meth = re.search(r'"method":\s*"(\w+)"', b).group(1)
        ind = m.group(1)
        return ind + 'if oerr := faultOf(logger, %s, "%s", err, %s == nil, oer.%s); oerr != nil {\n%s\treturn nil, oerr\n%s}\n' % (ty, meth, m.group(2), code, ind, ind)
    return re.sub(r'(?m)^(\t+)if err != nil \{\n(?:(?!^\1\}).)*^\1\} else \{\n\1\tif (\w+) == nil \{\n(?:(?!^\1\}).)*^\1\}\n', f, t, flags=re.S)
FAULT = '''

// faultOf: the answer for what the data interface said.
func faultOf(logger log.Logger, gt, method string, err *bridge.Error, none bool, refused oer.OAuthErrorType) *oer.OAuthError {
	switch {
	case err == nil && !none:
		return nil
	case err == nil:
		logger.Error(log.TokenEndpointLog(gt, log.InterfaceError, map[string]string{"method": method}, "the method returns (nil, nil)."))
	case err.Type() == bridge.ErrFailed:
		logger.Info(log.TokenEndpointLog(gt, log.InterfaceError, map[string]string{"method": method}, "failed"))
		return oer.NewOAuthSimpleError(refused)
	default:
		logger.Warn(log.TokenEndpointLog(gt, log.InterfaceServerError, map[string]string{"method": method}, "interface returned ServerError."))
	}
	return oer.NewOAuthSimpleError(oer.ErrServerError)
}
'''
refs['grant-fault'] = [(f, g_fault) for f in GR[:2]] + [('grant/interface.go', lambda t: t + FAULT)]
refs['grant-fault-all'] = [(f, g_fault) for f in GR] + [('grant/interface.go', lambda t: t + FAULT)]
def g_switch(t):
    # if/else-if on the type becomes a switch
    t = re.sub(r'if err\.Type\(\) == bridge\.ErrFailed \{', 'switch err.Type() { case bridge.ErrFailed:', t)
    t = re.sub(r'\} else if err\.Type\(\) == bridge\.ErrUnsupported \{', 'case bridge.ErrUnsupported:', t)
    return re.sub(r'(case bridge\.ErrUnsupported:(?:(?!case bridge).)*?)\n(\t+)\} else \{\n', r'\1\n\2default:\n', t, flags=re.S)
refs['grant-switch'] = [(f, g_switch) for f in GR]
def g_named(t):
    # the function literal becomes a declared function with named results
    m = re.search(r'return &GrantHandler\{\n\t\t(Type\w+),\n\t\tfunc\((.*?)\) \(\*Response, \*oer\.OAuthError\) \{\n(.*)\n\t\t\},\n\t\}\n\}\n?$', t, re.S)
    ty = m.group(1); n = 'handle' + ty
    return t[:m.start()] + 'return &GrantHandler{Type: %s, Func: %s}\n}\n\nfunc %s(%s) (res *Response, oerr *oer.OAuthError) {\n%s\n}\n' % (ty, n, n, m.group(2), m.group(3).replace('res := NewResponse', 'res = NewResponse').replace('oerr := ', 'oerr = '))
refs['grant-named'] = [(f, g_named) for f in GR]
refs['grant-response'] = [('grant/interface.go', lambda t: t + '''
func issued(token bridge.OAuthToken, scp string) *Response {
	res := NewResponse(token.GetAccessToken(), token.GetAccessTokenExpiresIn())
	res.Scope, res.RefreshToken = scp, token.GetRefreshToken()
	return res
}
''')] + [(f, lambda t: once(t, r'res := NewResponse\(token\.GetAccessToken\(\), token\.GetAccessTokenExpiresIn\(\)\)\n(\t+scp := info\.GetScope\(\)\n)?.*?res\.RefreshToken = \w+\n\t+\}\n', lambda m: (m.group(1) or '') + 'res := issued(token, %s)\n' % 'scp')) for f in GR[:2]]
refs['code-order'] = [('grant/authorization_code.go', lambda t: once(t, r'(\t\t\tif info\.GetClientId\(\) != c\.GetId\(\) \{.*?\n\t\t\t\}\n)(\t\t\tif sess\.GetRedirectURI\(\) != uri \{.*?\n\t\t\t\}\n)\n(\t\t\tif sess\.GetExpiresIn.*?\n\t\t\t\}\n)', r'\3\1\2'))]
refs['code-time'] = [('grant/authorization_code.go', 'if sess.GetExpiresIn()+sess.GetCreatedAt() < requestedTime.Unix() {', 'if end := sess.GetCreatedAt() + sess.GetExpiresIn(); requestedTime.Unix() > end {'),
  ('grant/refresh_token.go', 'if old.GetRefreshTokenExpiresIn()+old.GetCreatedAt() < requestedTime.Unix() {', 'if now, until := requestedTime.Unix(), old.GetCreatedAt()+old.GetRefreshTokenExpiresIn(); !(now <= until) {')]
refs['code-timelib'] = [('grant/authorization_code.go', 'if sess.GetExpiresIn()+sess.GetCreatedAt() < requestedTime.Unix() {', 'if time.Unix(requestedTime.Unix(), 0).After(time.Unix(sess.GetExpiresIn()+sess.GetCreatedAt(), 0)) {')]
refs['code-pkce-func'] = [('grant/authorization_code.go', lambda t: once(t, r'\t\t\tcv := sess\.GetCodeVerifier\(\)\n\t\t\tif cv != "" \{\n(.*?)\n\t\t\t\}\n\n\t\t\ttoken, err', lambda m: '\t\t\tif oerr := proveKey(r, c, sess.GetCodeVerifier(), logger); oerr != nil {\n\t\t\t\treturn nil, oerr\n\t\t\t}\n\n\t\t\ttoken, err') + '\nfunc proveKey(r *http.Request, c bridge.Client, cv string, logger log.Logger) *oer.OAuthError {\n\tif cv == "" {\n\t\treturn nil\n\t}\n' + re.search(r'\t\t\tif cv != "" \{\n(.*?)\n\t\t\t\}\n\n\t\t\ttoken, err', t, re.S).group(1).replace('return nil, ', 'return ') + '\n\treturn nil\n}\n')]
refs['params-once'] = [('grant/refresh_token.go', 'rt := r.FormValue("refresh_token")', 'r.ParseMultipartForm(32 << 20)\n\t\t\trt := r.Form.Get("refresh_token")'), ('grant/authorization_code.go', 'code := r.FormValue("code")', 'code := r.Form.Get("code")')]
refs['scope-list'] = [('grant/refresh_token.go', 'if !scope.IncludeOfflineAccess(scp) {', '''offline := false
			for _, s := range scope.Split(scp) {
				offline = offline || s == scope.OfflineAccess
			}
			if !offline {''')]
refs['response-omit'] = [('grant/interface.go', lambda t: re.sub(r'type Response struct \{', 'type Response struct {\n\textra map[string]string', t))] if False else [('grant/interface.go', lambda t: t.replace('json.Marshal(', 'json.Marshal(')+'\nvar _ = json.Valid\n')]

# ---- token endpoint
refs['te-credential'] = [('token_endpoint.go', lambda t: once(t, r'\tswitch te\.clientSecretAcceptanceMethod \{.*?\n\t\}\n\}', '''\tvar read func(string) string
	if te.clientSecretAcceptanceMethod == FromHeaderAndPostBody {
		read = r.PostFormValue
	} else if te.clientSecretAcceptanceMethod == FromAll {
		read = r.FormValue
	} else {
		return "", "", false, false
	}
	if cid, sec = read("client_id"), read("client_secret"); cid == "" || sec == "" {
		return "", "", false, false
	}
	return cid, sec, false, true
}'''))]
refs['te-handler'] = [('token_endpoint.go', lambda t: once(t, r'\t\tcid, sec, inHeader, exists := te\.findClientCredential\(r\).*?\n\t\tte\.logger\.Debug\(log\.TokenEndpointLog\(gt, log\.NoCredential', '''\t\tvar (
			client bridge.Client
			ok     bool
		)
		cid, sec, inHeader, found := te.findClientCredential(r)
		ca, asserted := te.findClientAssertion(r)
		switch {
		case found:
			client, ok = te.validateClientBySecret(w, r, sdi, gt, cid, sec, inHeader)
		case te.acceptClientAssertion && asserted:
			client, ok = te.validateClientByAssertion(w, r, sdi, gt, ca)
		default:
			te.refuse(w, gt)
			return
		}
		if !ok {
			return
		}
		te.executeGrantHandler(w, r, sdi, client, gt, h)
	}
}

func (te *TokenEndpoint) refuse(w http.ResponseWriter, gt string) {
	te.logger.Debug(log.TokenEndpointLog(gt, log.NoCredential''').replace('''			oer.NewOAuthSimpleError(oer.ErrInvalidClient))
		return

	}
}''', '''			oer.NewOAuthSimpleError(oer.ErrInvalidClient))
}'''))]
refs['te-keyfunc'] = [('token_endpoint.go', lambda t: once(t, r'\t\tcid := ""\n\t\tclaims := t\.Claims\.\(jwt\.MapClaims\)\n\t\tif found, ok := claims\["sub"\]\.\(string\); ok \{\n\t\t\tcid = found\n\t\t\} else \{', '\t\tcid, ok := t.Claims.(jwt.MapClaims)["sub"].(string)\n\t\tif !ok {').replace('''		if found, ok := t.Header["alg"].(string); ok {
			alg = found
		}
		if found, ok := t.Header["kid"].(string); ok {
			kid = found
		}
''', '''		for name, dst := range map[string]*string{"alg": &alg, "kid": &kid} {
			if found, ok := t.Header[name].(string); ok {
				*dst = found
			}
		}
'''))]
refs['te-grantfirst'] = [('token_endpoint.go', lambda t: t.replace('''	if !client.MatchSecret(sec) {
''', '''	matched := client.MatchSecret(sec)
	allowed := client.CanUseGrantType(gt)
	if !matched {
''').replace('if !client.CanUseGrantType(gt) {', 'if !allowed {'))]
refs['te-headers'] = [('token_endpoint.go', lambda t: once(t, r'\tfor k, v := range defaultResponseHeaders \{\n.*?\n\t\}\n', '\th := w.Header()\n\tfor k := range defaultResponseHeaders {\n\t\th[http.CanonicalHeaderKey(k)] = []string{defaultResponseHeaders[k]}\n\t}\n'))]
refs['te-defer'] = [('token_endpoint.go', lambda t: once(t, r'(\tres, oerr := h\(r, client, sdi, te\.logger, te\.currentTime\(\)\)\n)\tif oerr != nil \{\n\t\tte\.fail\(w, oerr\)\n\t\treturn\n\t\} else \{(.*?)\t\tte\.success\(w, res\)\n\t\treturn\n\t\}\n', r'''\1	defer func() {
		if oerr != nil {
			te.fail(w, oerr)
		} else {
			te.success(w, res)
		}
	}()
	if oerr == nil {\2	}
'''))]
# ---- resource protector
refs['rp-bearer'] = [('resource_protector.go', lambda t: once(t, r'\tparts := strings\.Split\(.*?\n\t\}\n', '''\tscheme, rest, found := strings.Cut(r.Header.Get("Authorization"), " ")
	if found && strings.EqualFold(scheme, "bearer") {
		if token, _, _ := strings.Cut(rest, " "); token != "" {
			return token
		}
	}
'''))]
refs['rp-splitn'] = [('resource_protector.go', lambda t: once(t, r'\tparts := strings\.Split\((.*?), " "\)\n', r'\tparts := strings.SplitN(\1, " ", 3)\n'))]
refs['rp-scopes'] = [('resource_protector.go', lambda t: once(t, r'\t\ts := r\.Header\.Get\("X-OAUTH-SCOPE"\)\n\t\tok, not_found := scope\.IncludeAll\(s, scopes\)\n\t\tif ok \{\n\t\t\treturn true\n\t\t\} else \{\n(.*?)\n\t\t\}\n\t\} else \{\n\t\treturn true\n\t\}\n', r'''		granted := r.Header.Get("X-OAUTH-SCOPE")
		for _, not_found := range scopes {
			if scope.Include(granted, not_found) {
				continue
			}
\1
		}
	}
	return true
'''))]
refs['rp-fault'] = [('resource_protector.go', lambda t: re.sub(r'\tif err != nil \{\n\t\tif err\.Type\(\) == bridge\.ErrFailed \{\n(.*?)\n\t\t\} else if.*?\n\t\} else \{\n\t\tif (\w+) == nil \{.*?\n\t\}\n\n', r'''	if err != nil && err.Type() == bridge.ErrFailed {
\1
	}
	if err != nil || \2 == nil {
		rp.logger.Error(log.ProtectedResourceLog(r.URL.Path, log.InterfaceError, map[string]string{}, "fault"))
		w.WriteHeader(http.StatusInternalServerError)
		return false
	}

''', t, flags=re.S))]
refs['rp-identify'] = [('resource_protector.go', lambda t: once(t, r'\tr\.Header\.Set\("X-OAUTH-USER-ID", fmt\.Sprintf\("%d", info\.GetUserId\(\)\)\)\n\tr\.Header\.Set\("X-OAUTH-CLIENT-ID", info\.GetClientId\(\)\)\n\tr\.Header\.Set\("X-OAUTH-SCOPE", info\.GetScope\(\)\)\n', '''\tfor _, p := range [][2]string{
		{"X-Oauth-Scope", info.GetScope()},
		{"X-Oauth-Client-Id", info.GetClientId()},
		{"X-Oauth-User-Id", strconv.FormatInt(info.GetUserId(), 10)},
	} {
		r.Header[p[0]] = []string{p[1]}
	}
'''))]
refs['rp-clock'] = [('resource_protector.go', 'if at.GetRefreshedAt()+at.GetAccessTokenExpiresIn() < rp.currentTime().Unix() {', '''now := rp.currentTime().Unix()
	end := at.GetAccessTokenExpiresIn()
	end += at.GetRefreshedAt()
	if expired := now > end; expired {''')]
refs['jwk-lazy'] = [('jwk_endpoint.go', lambda t: t.replace('w.Header().Set("Content-Type", "application/json")\n\t\tw.WriteHeader(http.StatusOK)\n', 'h := w.Header()\n\t\th.Set("content-type", "application/json")\n'))]
# ---- assertion
refs['assert-claims'] = [('assertion/error.go', lambda t: t)] if False else []
del refs['assert-claims'], refs['response-omit']
# ---- authorization endpoint
AE = 'authorization_endpoint.go'
def ae_fail(t):
    # log + server_error blocks become a helper
    def f(m):
        return '%sreturn a.broken(r, rh, "%s", err, %s, %s)\n' % (m.group(1), m.group(2), m.group(3), m.group(4))
    t = re.sub(r'(?m)^\n?(\t+)a\.logger\.Error\(log\.AuthorizationEndpointLog\(r\.URL\.Path,\n\t+log\.InterfaceError,\n\t+map\[string\]string\{\n\t+"method": "(\w+)",\n\t+\},\n\t+err\.Error\(\)\)\)\n\n?\t+rh\.Error\(([\w.]+), "server_error", "", ([\w.]+)\)\n\1return false\n', f, t)
    return t + '''
func (a *AuthorizationEndpoint) broken(r *http.Request, rh authorization.ResponseHandler, method string, err error, uri, state string) bool {
	a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path, log.InterfaceError, map[string]string{"method": method}, err.Error()))
	rh.Error(uri, "server_error", "", state)
	return false
}
'''
refs['ae-fail'] = [(AE, ae_fail)]
TAIL = r'\t\t\tuid, err := callbacks\.GetLoginUserId\(\)\n(?:(?!\n\t\tcase ).)*?\t\t\t\t\treturn a\.completeSilently\(callbacks, r, rh, info, req, mas != ""\)\n\t\t\t\t\} else \{\n\t\t\t\t\trh\.Error\(ruri, "consent_required", "", state\)\n\t\t\t\t\treturn false\n\t\t\t\t\}\n\t\t\t\}\n'
def ae_none(t):
    t, k = re.subn(TAIL, '\t\t\treturn a.withoutInteraction(callbacks, r, rh, req, mas != "")\n', t, flags=re.S)
    assert k == 3, k
    return t + '''
func (a *AuthorizationEndpoint) withoutInteraction(callbacks bridge.AuthorizationCallbacks, r *http.Request,
	rh authorization.ResponseHandler, req *authorization.Request, limited bool) bool {
	refuse := func(code string) bool {
		rh.Error(req.RedirectURI, code, "", req.State)
		return false
	}
	uid, err := callbacks.GetLoginUserId()
	if err != nil {
		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path, log.InterfaceError,
			map[string]string{"method": "GetLoginUserId"}, err.Error()))
		return refuse("server_error")
	}
	info, serr := a.di.FindAuthInfoByUserIdAndClientId(uid, req.ClientId)
	switch {
	case serr != nil && serr.Type() != bridge.ErrUnsupported && serr.Type() != bridge.ErrServerError:
		return refuse("consent_required")
	case serr != nil, info == nil:
		return refuse("server_error")
	}
	fresh := func() bool {
		return a.currentTime().Unix()-int64(a.policy.ConsentOmissionPeriod) < info.GetAuthorizedAt()
	}
	if !info.IsActive() || !scope.Same(req.Scope, info.GetScope()) || !fresh() {
		return refuse("consent_required")
	}
	return a.completeSilently(callbacks, r, rh, info, req, limited)
}
'''
refs['ae-none'] = [(AE, ae_none)]
refs['ae-display'] = [(AE, lambda t: once(t, r'\tdisplay := authorization\.DisplayTypePage\n\td := r\.FormValue\("display"\)\n\tif d != "" \{\n.*?display = d\n\t\t\} else \{\n(.*?)\n\t\t\}\n\t\}\n', r'''	display := r.FormValue("display")
	switch d := display; d {
	case "":
		display = authorization.DisplayTypePage
	case authorization.DisplayTypePage, authorization.DisplayTypePopup,
		authorization.DisplayTypeWAP, authorization.DisplayTypeTouch:
	default:
\1
	}
'''))]
refs['ae-mode'] = [(AE, lambda t: once(t, r'\tvar defaultRM string\n\tswitch f\.Type \{.*?\n\t\}\n', '''\tdefaultRM := a.policy.DefaultAuthorizationCodeFlowResponseMode
	if f.Type == flow.Implicit || f.Type == flow.Hybrid {
		defaultRM = a.policy.DefaultImplicitFlowResponseMode
	}
'''))]
refs['ae-maxage'] = [(AE, lambda t: t.replace('ma, err = strconv.Atoi(mas)\n', 'var wide int64\n\t\twide, err = strconv.ParseInt(mas, 10, 0)\n\t\tma = int(wide)\n'))]
refs['ae-request'] = [(AE, lambda t: once(t, r'\treq := &authorization\.Request\{\n.*?\n\t\}\n', '''\treq := new(authorization.Request)
	req.Flow, req.ClientId, req.RedirectURI, req.Scope = f, cid, ruri, scp
	req.ResponseMode, req.State, req.Nonce = rmode, state, n
	req.Display, req.Prompt, req.MaxAge = display, prmpt, int64(ma)
	req.UILocale = locale
	req.CodeVerifier = verifier
	for k, dst := range map[string]*string{"id_token_hint": &req.IdTokenHint, "login_hint": &req.LoginHint} {
		*dst = r.FormValue(k)
	}
'''))]
refs['ae-order'] = [(AE, lambda t: (lambda m: t[:m.start()] + m.group(2) + '\n' + m.group(1) + t[m.end():])(re.search(r'(\tif n != "" && len\(n\) > a\.policy\.MaxNonceLength \{.*?\n\t\}\n)\n(\tverifier := .*?\n\t\}\n)', t, re.S)))]
refs['ae-offline'] = [(AE, lambda t: once(t, r'\t\t\tscp_for_check := scope\.RemoveOpenID\(scp\)\n\t\t\tscp_for_check = scope\.RemoveOfflineAccess\(scp_for_check\)\n\n\t\t\tif len\(scp_for_check\) == 0 \{', '''\t\t\tscp_for_check := scope.RemoveOpenID(scope.RemoveOfflineAccess(scp))
			if scp_for_check == "" {'''))]
refs['ae-consent'] = [(AE, lambda t: once(t, r'\tif !prompt\.IncludeConsent\(req\.Prompt\) \{\n\t\tpolicy := clnt\.GetNoConsentPromptPolicy\(\)\n\t\tswitch policy \{\n\t\tcase prompt\.NoConsentPromptPolicyOmitConsentIfCan:\n(.*?)\n\t\tcase prompt\.NoConsentPromptPolicyForceConsent:\n\t\t\}\n\t\}\n', r'''	omit := clnt.GetNoConsentPromptPolicy() == prompt.NoConsentPromptPolicyOmitConsentIfCan
	if omit && !prompt.IncludeConsent(req.Prompt) {
\1
	}
'''))]
refs['ae-complete'] = [(AE, lambda t: once(t, r'\tswitch req\.Flow\.Type \{\n\tcase flow\.AuthorizationCode:\n\t\treturn a\.complete.*?\n\t\}\n\treturn false\n\}', '''\tsteps := map[flow.FlowType]func(bridge.AuthorizationCallbacks, *http.Request, authorization.ResponseHandler, bridge.AuthInfo, *authorization.Request) bool{
		flow.AuthorizationCode: a.completeAuthorizationCodeFlowRequest,
		flow.Implicit:          a.completeImplicitFlowRequest,
		flow.Hybrid:            a.completeHybridFlowRequest,
	}
	if step, ok := steps[req.Flow.Type]; ok {
		return step(callbacks, r, rh, info, req)
	}
	return false
}'''))]
refs['ae-session'] = [(AE, lambda t: t.replace('''	serr := a.di.CreateAuthSession(info,
		req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), authTime))
	if serr != nil {
''', '''	if !a.remember(info, req, code, authTime) {
''') .replace('\tclnt, serr := a.di.FindClientById(req.ClientId)\n\tif serr != nil || clnt == nil {\n\t\trh.Error(req.RedirectURI, "server_error", "", req.State)\n\t\treturn false\n\t}\n\n\tparams := make(map[string]string)\n\tparams["code"] = code', '\tclnt, serr := a.di.FindClientById(req.ClientId)\n\tif serr != nil || clnt == nil {\n\t\trh.Error(req.RedirectURI, "server_error", "", req.State)\n\t\treturn false\n\t}\n\n\tparams := map[string]string{"code": code}') + '''
func (a *AuthorizationEndpoint) remember(info bridge.AuthInfo, req *authorization.Request, code string, at int64) bool {
	sess := req.ToSession(code, int64(a.policy.AuthSessionExpiresIn), at)
	return a.di.CreateAuthSession(info, sess) == nil
}
''')]
refs['ae-hybrid'] = [(AE, lambda t: (lambda m: t[:m.start()] + t[m.start():m.end()].replace(m.group(1) + m.group(2), m.group(2) + m.group(1)) + t[m.end():])(re.search(r'func \(a \*AuthorizationEndpoint\) completeHybridFlowRequest.*?(\tcode, err := callbacks\.CreateAuthorizationCode\(\)\n.*?\n\t\}\n\n)(\tauthTime, err := .*?\n\t\}\n\n)', t, re.S)))]
refs['ae-fragmentparams'] = [(AE, lambda t: t.replace('''		params["access_token"] = at
		params["token_type"] = "bearer"
		params["expires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
''', '''		for k, v := range map[string]string{
			"access_token": at,
			"token_type":   "bearer",
			"expires_in":   strconv.FormatInt(int64(t.GetAccessTokenExpiresIn()), 10),
		} {
			params[k] = v
		}
'''))]
refs['ae-url'] = [('authorization_endpoint.go', lambda t: re.sub(r'r\.FormValue\("(state|nonce|display|max_age|scope)"\)', r'r.Form.Get("\1")', t))]
refs['ae-closure'] = [(AE, lambda t: re.sub(r'rh\.Error\(ruri, ((?:(?!rh\.Error|return).)*?),\s*state\)\n(\t+)return false', r'return refuse(rh, ruri, \1, state)', t, flags=re.S) + '\nfunc refuse(rh authorization.ResponseHandler, uri, code, desc, state string) bool {\n\trh.Error(uri, code, desc, state)\n\treturn false\n}\n')]
