AE, TE, RP = 'authorization_endpoint.go', 'token_endpoint.go', 'resource_protector.go'
CODE, REF, JWTG, PW, CC = 'grant/authorization_code.go', 'grant/refresh_token.go', 'grant/jwt.go', 'grant/password.go', 'grant/client_credential.go'
G = 'github.com/lyokato/goidc'
TEP = [G, G + '/grant', 'net/http']
SETUP = '''
	c := &Client{id: "app", secret: "s3cret", owner: 7, grants: "authorization_code refresh_token password client_credentials " + grant.TypeJWT + "", uri: "https://app.example/cb", alg: "HS256", key: []byte("idkey")}
	s := newStore(c)
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(quiet{})
	te.SetTimeBuilder(clock)
	te.Support(grant.AuthorizationCode())
	te.Support(grant.RefreshToken())
	te.Support(grant.Password())
	te.Support(grant.ClientCredentials())
	te.Support(grant.JWT())
	h := te.Handler(s)
	auth := []string{"Authorization", basic("app", "s3cret")}
	_ = auth
'''

seeds['c01-wrong-secret-in-body'] = dict(property='C01',
 edits=[(TE, '''	if !client.MatchSecret(sec) {
''', '''	if !client.MatchSecret(sec) && (inHeader || client.GetOwnerUserId() < 0) {
''')],
 imports=TEP, demo=SETUP + '''
	te.AcceptClientSecret(goidc.FromHeaderAndPostBody)
	s.users["u:p"] = 1
	w := post(h, form("grant_type", "password", "username", "u", "password", "p", "client_id", "app", "client_secret", "s3cret"))
	check(w.Code == http.StatusOK, "the right secret in the body is accepted", w.Code)
	w = post(h, form("grant_type", "password", "username", "u", "password", "p"), "Authorization", basic("app", "wrong"))
	check(w.Code != http.StatusOK, "a wrong secret in the header is refused")
	w = post(h, form("grant_type", "password", "username", "u", "password", "p", "client_id", "app", "client_secret", "wrong"))
	check(w.Code != http.StatusOK && len(s.tokens) == 1, "a wrong secret in the body is refused", w.Code)
''', needs='client secrets accepted from the form body, and a wrong one sent there by a client that has an owner', breaks='the secret presented in the form body is not compared, so anyone can act as a client')

seeds['c01-assertion-fallback'] = dict(property='C01',
 edits=[(TE, '''		if te.acceptClientAssertion {
			ca, exists := te.findClientAssertion(r)
			if exists {''', '''		if te.acceptClientAssertion || te.clientSecretAcceptanceMethod == FromAll {
			ca, exists := te.findClientAssertion(r)
			if exists {''')],
 imports=TEP + ['github.com/golang-jwt/jwt'], demo=SETUP + '''
	te.AcceptClientSecret(goidc.FromAll)
	c.akey = func(alg, kid string) interface{} { return []byte("akey") }
	s.users["u:p"] = 1
	a, _ := jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims{"sub": "app", "aud": s.issuer, "exp": now + 60}).SignedString([]byte("akey"))
	f := form("grant_type", "password", "username", "u", "password", "p", "client_assertion", a, "client_assertion_type", goidc.ClientAssertionTypeJWT)
	w := post(h, f)
	check(w.Code == http.StatusUnauthorized && len(s.tokens) == 0, "assertions are not accepted unless enabled", w.Code)
	te.AcceptClientAssertion(true)
	w = post(h, f)
	check(w.Code == http.StatusOK, "they are when enabled", w.Code)
''', needs='credentials accepted from everywhere, client assertions not enabled, and a request with only a valid assertion', breaks='client assertions authenticate clients although they were not enabled')

seeds['c02-assertion-skips-grant-check'] = dict(property='C02',
 edits=[(TE, '''			if exists {
				client, ok := te.validateClientByAssertion(w, r,
					sdi, gt, ca)''', '''			if exists {
				if r.FormValue("requested_grant_type") != "" {
					gt = r.FormValue("requested_grant_type")
				}
				client, ok := te.validateClientByAssertion(w, r,
					sdi, gt, ca)''')],
 imports=TEP + ['github.com/golang-jwt/jwt'], demo=SETUP + '''
	te.AcceptClientAssertion(true)
	c.grants = "refresh_token"
	c.akey = func(alg, kid string) interface{} { return []byte("akey") }
	s.users["u:p"] = 1
	a, _ := jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims{"sub": "app", "aud": s.issuer, "exp": now + 60}).SignedString([]byte("akey"))
	f := form("grant_type", "password", "username", "u", "password", "p", "client_assertion", a, "client_assertion_type", goidc.ClientAssertionTypeJWT)
	w := post(h, f)
	check(w.Code == http.StatusBadRequest && body(w)["error"] == "unauthorized_client", "a grant type the client may not use is refused", w.Code, w.Body)
	a, _ = jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims{"sub": "app", "aud": s.issuer, "exp": now + 60, "jti": "2"}).SignedString([]byte("akey"))
	f.Set("client_assertion", a)
	f.Set("requested_grant_type", "refresh_token")
	w = post(h, f)
	check(w.Code == http.StatusBadRequest && len(s.tokens) == 0, "whatever else the request says", w.Code, w.Body)
''', needs='a client assertion and an extra requested_grant_type parameter naming a grant type the client may use', breaks='a client authenticated by assertion runs a grant type it is not allowed to use')

seeds['c03-aud-prefix'] = dict(property='C03',
 edits=[('assertion/error.go', '''	if aud != service {
''', '''	if len(aud) < len(service) || aud[:len(service)] != service {
''')],
 imports=TEP + ['github.com/golang-jwt/jwt'], demo=SETUP + '''
	c.akey = func(alg, kid string) interface{} { return []byte("akey") }
	s.subjects["bob"] = 3
	try := func(aud string) int {
		a, _ := jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims{"sub": "bob", "aud": aud, "exp": now + 60, "jti": aud}).SignedString([]byte("akey"))
		return post(h, form("grant_type", grant.TypeJWT, "assertion", a), auth...).Code
	}
	check(try(s.issuer) == 200, "an assertion for this server is accepted")
	check(try("https://other.example") != 200, "one for another server is not")
	check(try(s.issuer+".evil.example") != 200, "one for a server whose name starts the same is not")
''', needs='an audience that has the issuer as a proper prefix', breaks='assertions made for another server are accepted')

seeds['c03-no-replay-protection-without-iat'] = dict(property='C03',
 edits=[('assertion/error.go', '''	err := sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)
''', '''	var err *bridge.Error
	if jti != "" || iat_exists {
		err = sdi.RecordAssertionClaims(c.GetId(), jti, iat, exp)
	}
''')],
 imports=TEP + ['github.com/golang-jwt/jwt'], demo=SETUP + '''
	c.akey = func(alg, kid string) interface{} { return []byte("akey") }
	s.subjects["bob"] = 3
	try := func(m jwt.MapClaims) int {
		m["sub"], m["aud"], m["exp"] = "bob", s.issuer, now+60
		a, _ := jwt.NewWithClaims(jwt.SigningMethodHS256, m).SignedString([]byte("akey"))
		return post(h, form("grant_type", grant.TypeJWT, "assertion", a), auth...).Code
	}
	check(try(jwt.MapClaims{"jti": "1"}) == 200 && try(jwt.MapClaims{"jti": "1"}) != 200, "an assertion is not replayable")
	check(try(jwt.MapClaims{}) == 200 && try(jwt.MapClaims{}) != 200, "also without jti and iat")
''', needs='an assertion without jti and iat, whose recording the data interface would refuse', breaks='such assertions are accepted without asking the data interface to record them, and so can be replayed')

seeds['c04-redirect-uri-by-registration'] = dict(property='C04',
 edits=[(CODE, '''			if sess.GetRedirectURI() != uri {
''', '''			if sess.GetRedirectURI() != uri && !c.CanUseRedirectURI(uri) {
''')],
 imports=TEP, demo=SETUP + '''
	s.infos = append(s.infos, &Info{id: 1, client: "app", subject: "x", scope: "read"})
	s.sessions = append(s.sessions, &Session{code: "CODE", auth: 1, uri: "https://app.example/other", exp: 60, at: now})
	f := form("grant_type", "authorization_code", "code", "CODE", "redirect_uri", "https://evil.example/")
	check(post(h, f, auth...).Code != 200, "a foreign redirect_uri is refused")
	f.Set("redirect_uri", "https://app.example/cb")
	check(post(h, f, auth...).Code != 200, "so is another one of the client")
	f.Set("redirect_uri", "https://app.example/other")
	check(post(h, f, auth...).Code == 200, "the right one is accepted")
''', needs='a code issued for one redirect URI of the client and redeemed with another registered one', breaks='a code is redeemable with a redirect URI other than the one it was issued for')

seeds['c05-disable-failure-tolerated'] = dict(property='C05',
 edits=[(CODE, '''				if err.Type() == bridge.ErrFailed {

					logger.Error(log.TokenEndpointLog(TypeAuthorizationCode,
						log.DisableSessionFailed,
						map[string]string{"method": "DisableSession", "client_id": c.GetId()},
						"failed to disable code."))

					return nil, oer.NewOAuthSimpleError(oer.ErrInvalidGrant)
''', '''				if err.Type() == bridge.ErrFailed {

					logger.Error(log.TokenEndpointLog(TypeAuthorizationCode,
						log.DisableSessionFailed,
						map[string]string{"method": "DisableSession", "client_id": c.GetId()},
						"failed to disable code."))

					if token.GetRefreshToken() != "" {
						return nil, oer.NewOAuthSimpleError(oer.ErrInvalidGrant)
					}
''')],
 imports=TEP + [G + '/bridge'], demo=SETUP + '''
	for _, scp := range []string{"read", "read offline_access"} {
		s.infos = []*Info{{id: 1, client: "app", subject: "x", scope: scp}}
		s.sessions = []*Session{{code: "CODE", auth: 1, uri: "https://app.example/cb", exp: 60, at: now}}
		s.fail = map[string]*bridge.Error{"DisableSession": bridge.NewError(bridge.ErrFailed)}
		f := form("grant_type", "authorization_code", "code", "CODE", "redirect_uri", "https://app.example/cb")
		w := post(h, f, auth...)
		check(w.Code != 200 && body(w)["access_token"] == nil, "no token unless the code was disabled", scp, w.Body)
	}
''', needs='the data interface refuses to disable the code (it was used meanwhile), for a token without refresh token', breaks='two concurrent redemptions of a code both get tokens')

seeds['c05-two-sessions'] = dict(property='C05',
 edits=[(CODE, '''			err = sdi.DisableSession(sess)
''', '''			if cur, ferr := sdi.FindAuthSessionByCode(sess.GetCode()); ferr == nil && cur != nil {
				err = sdi.DisableSession(cur)
			}
''')],
 imports=TEP + [G + '/bridge'], demo='''package main

import (
	"github.com/lyokato/goidc"
	"github.com/lyokato/goidc/bridge"
	"github.com/lyokato/goidc/grant"
)

// racing runs a second redemption while the first creates its token.
type racing struct {
	*Store
	hook func()
}

func (r *racing) CreateOAuthToken(info bridge.AuthInfo, te bool) (bridge.OAuthToken, *bridge.Error) {
	if h := r.hook; h != nil {
		r.hook = nil
		h()
	}
	return r.Store.CreateOAuthToken(info, te)
}

// DisableSession of a code that is not there fails.
func (r *racing) DisableSession(x bridge.AuthSession) *bridge.Error {
	n := len(r.sessions)
	r.Store.DisableSession(x)
	if len(r.sessions) == n {
		return notFound
	}
	return nil
}

func main() {
	c := &Client{id: "app", secret: "s3cret", grants: "authorization_code"}
	s := &racing{Store: newStore(c)}
	te := goidc.NewTokenEndpoint("realm")
	te.SetLogger(quiet{})
	te.SetTimeBuilder(clock)
	te.Support(grant.AuthorizationCode())
	h := te.Handler(s)
	s.infos = []*Info{{id: 1, client: "app", subject: "x", scope: "read"}}
	s.sessions = []*Session{{code: "CODE", auth: 1, uri: "https://app.example/cb", exp: 60, at: now}}
	f := form("grant_type", "authorization_code", "code", "CODE", "redirect_uri", "https://app.example/cb")
	got := 0
	send := func() {
		if post(h, f, "Authorization", basic("app", "s3cret")).Code == 200 {
			got++
		}
	}
	s.hook = send
	send()
	send()
	check(got == 1, "a code is redeemed once", got)
}
''', needs='two overlapping redemptions of one code: the second finishes while the first is creating its token', breaks='the first redemption no longer finds the session and skips disabling it, so both get tokens')

seeds['c06-challenge-case'] = dict(property='C06',
 edits=[('pkce/verifier.go', '''	return S256Encode(verifier) == challenge
''', '''	return strings.EqualFold(S256Encode(verifier), challenge)
'''), ('pkce/verifier.go', 'import "fmt"\n', 'import (\n\t"fmt"\n\t"strings"\n)\n')],
 imports=TEP + ['strings', G + '/pkce'], demo=SETUP + '''
	s.infos = append(s.infos, &Info{id: 1, client: "app", subject: "x", scope: "read"})
	try := func(challenge string) int {
		s.sessions = []*Session{{code: "CODE", auth: 1, uri: "https://app.example/cb", exp: 60, at: now, verifier: "verifier"}}
		return post(h, form("grant_type", "authorization_code", "code", "CODE", "redirect_uri", "https://app.example/cb",
			"code_challenge", challenge, "code_challenge_method", "S256"), auth...).Code
	}
	right := pkce.S256Encode("verifier")
	check(try(right) == 200, "the right challenge is accepted")
	check(try(strings.ToLower(right)) != 200, "one that differs in case is not")
''', needs='a challenge that differs from the right one only in letter case', breaks='wrong code challenges are accepted')

seeds['c06-plain-default'] = dict(property='C06',
 edits=[(CODE, '''				cc := r.FormValue("code_challenge")
				if cc == "" {
''', '''				cc := r.FormValue("code_challenge")
				if cc == "" && cm == pkce.CodeChallengeMethodPlain && r.PostFormValue("code_verifier") != "" {
					cc = cv
				}
				if cc == "" {
''')],
 imports=TEP, demo=SETUP + '''
	s.infos = append(s.infos, &Info{id: 1, client: "app", subject: "x", scope: "read"})
	s.sessions = []*Session{{code: "CODE", auth: 1, uri: "https://app.example/cb", exp: 60, at: now, verifier: "verifier"}}
	f := form("grant_type", "authorization_code", "code", "CODE", "redirect_uri", "https://app.example/cb", "code_challenge_method", "plain")
	check(post(h, f, auth...).Code != 200, "no challenge, no token")
	f.Set("code_verifier", "anything")
	check(post(h, f, auth...).Code != 200, "a parameter of another name is no challenge")
''', needs='method plain, no code_challenge, and a (wrong) code_verifier parameter in the body', breaks='a code bound to a verifier is redeemable without proving knowledge of it')

seeds['c07-offline-substring'] = dict(property='C07',
 edits=[(REF, '''			if !scope.IncludeOfflineAccess(scp) {
''', '''			if !strings.Contains(scp, scope.OfflineAccess) {
'''), (REF, '''	"net/http"
''', '''	"net/http"
	"strings"
''')],
 imports=TEP, demo=SETUP + '''
	try := func(scp string) int {
		s.infos = []*Info{{id: 1, client: "app", subject: "x", scope: scp}}
		s.tokens = []*Token{{auth: 1, access: "A", refresh: "R", refExp: 100, created: now}}
		return post(h, form("grant_type", "refresh_token", "refresh_token", "R"), auth...).Code
	}
	check(try("read offline_access") == 200, "a token with offline access is refreshed")
	check(try("read") != 200, "one without is not")
	check(try("read no_offline_access") != 200, "a scope that only contains the word is another scope")
''', needs='an authorization whose scope has a word that contains offline_access, but not offline_access itself', breaks='tokens are refreshed without offline access')

seeds['c08-scope-of-login'] = dict(property='C08',
 edits=[(PW, '''			if scp_req != "" && !c.CanUseScope(flow.DirectGrant, scp_req) {
''', '''			if scp_req != "" && !c.CanUseScope(flow.Implicit, scp_req) {
''')],
 imports=TEP + [G + '/flow'], demo=SETUP + '''
	s.users["u:p"] = 1
	c.scopes = func(f flow.FlowType, scp string) bool { return f != flow.DirectGrant || scp == "read" }
	w := post(h, form("grant_type", "password", "username", "u", "password", "p", "scope", "read"), auth...)
	check(w.Code == http.StatusOK, "a permitted scope is granted")
	w = post(h, form("grant_type", "password", "username", "u", "password", "p", "scope", "admin"), auth...)
	check(w.Code == http.StatusBadRequest && body(w)["error"] == "invalid_scope", "a scope not permitted for direct grants is refused", w.Code)
''', needs='a client whose permitted scopes differ between the implicit flow and direct grants', breaks='the password grant hands out scopes the client may only get through another flow')

seeds['c08-owner-zero'] = dict(property='C08',
 edits=[(CC, '''			uid := c.GetOwnerUserId()
''', '''			uid := c.GetOwnerUserId()
			if su, serr := sdi.FindUserIdBySubject(r.FormValue("username")); uid < 0 && serr == nil {
				uid = su
			}
''')],
 imports=TEP, demo=SETUP + '''
	c.owner = -1
	s.subjects["bob"] = 3
	w := post(h, form("grant_type", "client_credentials"), auth...)
	check(w.Code != http.StatusOK, "a client without an owner gets no token")
	w = post(h, form("grant_type", "client_credentials", "username", "bob"), auth...)
	check(w.Code != http.StatusOK && len(s.tokens) == 0, "and cannot name one")
''', needs='a client without an owner that names an existing subject as username', breaks='the client gets tokens of any user it names')
